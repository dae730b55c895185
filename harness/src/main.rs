//! Runs the real crate on generated inputs; see cx.rs.
#![allow(clippy::all)]
mod alloc;
mod cx;
mod em;
mod keys;
mod pa;
mod pb;
mod probe;

use cx::{CURRENT, Cx, TICK};
use std::sync::atomic::Ordering;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn run(p: &str, cx: &mut Cx) {
    match p {
        #[cfg(any(only_C01, only_all))]
        "C01" => pa::c01(cx),
        #[cfg(any(only_C02, only_all))]
        "C02" => pa::c02(cx),
        #[cfg(any(only_C03, only_all))]
        "C03" => pa::c03(cx),
        #[cfg(any(only_C04, only_all))]
        "C04" => pa::c04(cx),
        #[cfg(any(only_C05, only_all))]
        "C05" => pa::c05(cx),
        #[cfg(any(only_C06, only_all))]
        "C06" => { pa::c06(cx); em::c12(cx) }
        #[cfg(any(only_C07, only_all))]
        "C07" => { pa::c07(cx); em::mutate(cx) }
        #[cfg(any(only_C08, only_all))]
        "C08" => { pb::c08(cx); em::iterate(cx) }
        #[cfg(any(only_C09, only_all))]
        "C09" => pb::c09(cx),
        #[cfg(any(only_C10, only_all))]
        "C10" => pb::c10(cx),
        #[cfg(any(only_C11, only_all))]
        "C11" => { pb::c11(cx); em::equal(cx) }
        #[cfg(any(only_C12, only_all))]
        "C12" => em::c12(cx),
        #[cfg(any(only_C13, only_all))]
        "C13" => pa::c13(cx),
        #[cfg(any(only_C14, only_all))]
        "C14" => { pa::c14(cx); em::disjoint(cx) }
        #[cfg(any(only_C15, only_all))]
        "C15" => pa::c15(cx),
        #[cfg(any(only_C16, only_all))]
        "C16" => { pa::c16(cx); em::c12(cx) }
        #[cfg(any(only_C17, only_all))]
        "C17" => { pa::c17(cx); em::storage(cx) }
        #[cfg(any(only_C18, only_all))]
        "C18" => { pb::c18(cx); em::serial(cx) }
        _ => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let flag = |n: &str| a.iter().any(|x| x == n);
    let prop = a.get(1).cloned().unwrap_or_default();
    let only = get("--case").map(|c| { let (g, i) = c.rsplit_once(' ').unwrap(); (g.to_string(), i.parse().unwrap()) });
    let mut cx = Cx::new(
        get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        flag("--thorough"), only, flag("--trace"), flag("--small"),
    );
    // Panics inside cases are caught and judged there; anything that cannot unwind names its case first.
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if s.contains("unsafe precondition") || s.contains("cannot unwind") {
            let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
            eprintln!("FATAL case={c} {}", s.replace('\n', " "));
        }
    }));
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            same = if t == last { same + 1 } else { 0 };
            last = t;
            if same > 90 {
                let c = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                eprintln!("FATAL case={c} no progress for 90 s (construction or lookup does not end)");
                std::process::exit(70);
            }
        }
    });
    run(&prop, &mut cx);
    let out = serde_json::json!({
        "evaluations": cx.evals,
        "distinct_nontrivial": cx.evals - cx.trivial,
        "groups": cx.groups,
        "samples": cx.samples.iter().map(|(g, i, s)| format!("{g} #{i}: {s}")).collect::<Vec<_>>(),
        "fails": cx.fails.iter().map(|f| serde_json::json!({"case": format!("{} {}", f.group, f.idx), "input": f.desc, "message": f.msg})).collect::<Vec<_>>(),
    });
    let text = serde_json::to_string_pretty(&out).unwrap();
    if let Some(p) = get("--out") { std::fs::write(p, text).unwrap(); } else { println!("{text}"); }
    std::process::exit(if cx.fails.is_empty() { 0 } else { 1 });
}
