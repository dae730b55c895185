//! Counting allocator: live and peak bytes of the current thread's measured closure.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
}

/// Result, bytes it keeps, peak bytes while making it.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let r = f();
    let live = LIVE.with(Cell::get) - base;
    let peak = PEAK.with(Cell::get) - base;
    (r, live.max(0) as usize, peak.max(0) as usize)
}
