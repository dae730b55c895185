//! C12 and the compile-time side of the other properties: collections emitted by the generator and the macros.
use crate::ck;
use crate::cx::{Cx, R};
use crate::probe::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

#[allow(clippy::all, unused)]
mod emitted {
    include!(concat!(env!("OUT_DIR"), "/emitted.rs"));
}

pub trait Visit {
    fn skip(&self) -> bool { false }
    fn broken(&mut self, name: &str, why: &str);
    fn map<K: Ord + Clone + Debug + Hash, M: MapP<K, u32>>(&mut self, name: &str, m: M, src: &[(K, u32)], probes: &[K]);
    fn set<T: Ord + Clone + Debug + Hash, S: SetP<T>>(&mut self, name: &str, s: S, src: &[T], probes: &[T]);
    fn full<K: Ord + Clone + Debug + Hash + serde::Serialize, M: MapP<K, u32> + serde::Serialize + PartialEq<BTreeMap<K, u32>>>(&mut self, name: &str, m: M, src: &[(K, u32)], probes: &[K]);
    fn full_set<T: Ord + Clone + Debug + Hash + serde::Serialize, S: SetP<T> + serde::Serialize + PartialEq<BTreeSet<T>>>(&mut self, name: &str, s: S, src: &[T], probes: &[T]);
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Lookup, Mutate, Iterate, Equal, Disjoint, Storage, Serial }

struct Vis<'a> { cx: &'a mut Cx, mode: Mode }

fn bound<K>(n: usize, v: usize) -> usize {
    let cm = |x: usize| if x <= 255 { 1 } else if x <= 65535 { 2 } else { 8 };
    let e = if v == 0 { std::mem::size_of::<K>() } else { std::mem::size_of::<(K, u32)>() };
    let range = 128.max(10 * n);
    n * e + ((10 * n).next_power_of_two() * 2 * cm(n)).max(range * cm(range)) + 64
}

impl Visit for Vis<'_> {
    fn broken(&mut self, name: &str, why: &str) {
        if self.mode == Mode::Lookup {
            let why = why.to_string();
            self.cx.case("emitted", &name, true, |_| Err(why));
        }
    }
    fn map<K: Ord + Clone + Debug + Hash, M: MapP<K, u32>>(&mut self, name: &str, m: M, src: &[(K, u32)], probes: &[K]) {
        match self.mode {
            Mode::Lookup => self.cx.case("emitted", &(name, src), true, |_| {
                contents(&m, src)?;
                lookups(&mut m.clone(), src, probes)
            }),
            Mode::Storage => self.cx.case("emitted/size", &(name, src), true, |_| {
                let n = src.iter().map(|e| &e.0).collect::<BTreeSet<_>>().len();
                let (a, b) = (std::mem::size_of::<M>(), bound::<K>(n, 1));
                ck!(a <= b, "{} of {n} entries takes {a} bytes, bound {b}", std::any::type_name::<M>());
                Ok(())
            }),
            _ => {}
        }
    }
    fn set<T: Ord + Clone + Debug + Hash, S: SetP<T>>(&mut self, name: &str, s: S, src: &[T], probes: &[T]) {
        match self.mode {
            Mode::Lookup => self.cx.case("emitted", &(name, src), true, |_| lookups_set(&s, src, probes)),
            Mode::Storage => self.cx.case("emitted/size", &(name, src), true, |_| {
                let n = src.iter().collect::<BTreeSet<_>>().len();
                let (a, b) = (std::mem::size_of::<S>(), bound::<T>(n, 0));
                ck!(a <= b, "{} of {n} entries takes {a} bytes, bound {b}", std::any::type_name::<S>());
                Ok(())
            }),
            _ => {}
        }
    }
    fn full<K: Ord + Clone + Debug + Hash + serde::Serialize, M: MapP<K, u32> + serde::Serialize + PartialEq<BTreeMap<K, u32>>>(&mut self, name: &str, mut m: M, src: &[(K, u32)], probes: &[K]) {
        let mo: BTreeMap<K, u32> = src.iter().cloned().collect();
        match self.mode {
            Mode::Lookup | Mode::Storage => self.map(name, m, src, probes),
            Mode::Iterate => self.cx.case("emitted/iter", &(name, src), true, |_| m.iters_(&mo.clone().into_iter().collect::<Vec<_>>())),
            Mode::Mutate => self.cx.case("emitted/mut", &(name, src), true, |_| {
                let ops: Vec<(u8, u32)> = (0..24).map(|i| (i as u8 * 5, i * 0x9E37)).collect();
                crate::pa::history("emitted", m, src, probes, &ops)
            }),
            Mode::Disjoint => self.cx.case("emitted/disjoint", &(name, src), true, |_| {
                let mut q: Vec<K> = mo.keys().take(3).cloned().collect();
                q.extend(probes.iter().filter(|k| !mo.contains_key(k)).take(2).cloned());
                q.sort();
                q.dedup();
                crate::pa::disjoint("emitted", &mut m, &q)
            }),
            Mode::Equal => self.cx.case("emitted/eq", &(name, src), true, |_| {
                ck!(m == mo, "not equal to its contents");
                let mut x = mo.clone();
                if let Some(k) = mo.keys().last() {
                    *x.get_mut(k).unwrap() ^= 1;
                    ck!(m != x, "equal although a value differs");
                    x.remove(k);
                    ck!(m != x, "equal although a key is missing");
                    if let Some(p) = probes.iter().find(|p| !mo.contains_key(p)) {
                        x.insert(p.clone(), 0);
                        ck!(m != x, "equal although a key differs");
                    }
                }
                Ok(())
            }),
            Mode::Serial => self.cx.case("emitted/serde", &(name, src), true, |_| {
                let a: serde_json::Value = serde_json::to_value(&m).map_err(|e| e.to_string())?;
                let b: serde_json::Value = serde_json::to_value(&mo).map_err(|e| e.to_string())?;
                ck!(a == b, "serialises to {a}, expected {b}");
                let t = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                let u = serde_json::to_string(&mo).map_err(|e| e.to_string())?;
                ck!(t.len() == u.len(), "serialises to {t}, expected the members of {u}");
                Ok(())
            }),
        }
    }
    fn full_set<T: Ord + Clone + Debug + Hash + serde::Serialize, S: SetP<T> + serde::Serialize + PartialEq<BTreeSet<T>>>(&mut self, name: &str, mut s: S, src: &[T], probes: &[T]) {
        let mo: BTreeSet<T> = src.iter().cloned().collect();
        match self.mode {
            Mode::Lookup | Mode::Storage => self.set(name, s, src, probes),
            Mode::Iterate => self.cx.case("emitted/iter", &(name, src), true, |_| s.iters_(&mo.iter().cloned().collect::<Vec<_>>())),
            Mode::Equal => self.cx.case("emitted/eq", &(name, src), true, |_| {
                ck!(s == mo, "not equal to its contents");
                let mut x = mo.clone();
                if let Some(k) = mo.iter().last() {
                    x.remove(k);
                    ck!(s != x, "equal although an element is missing");
                    if let Some(p) = probes.iter().find(|p| !mo.contains(p)) {
                        x.insert(p.clone());
                        ck!(s != x, "equal although an element differs");
                    }
                }
                Ok(())
            }),
            Mode::Serial => self.cx.case("emitted/serde", &(name, src), true, |_| {
                let t = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                let u = serde_json::to_string(&mo).map_err(|e| e.to_string())?;
                let (mut a, mut b) = (serde_json::from_str::<Vec<serde_json::Value>>(&t).unwrap(), serde_json::from_str::<Vec<serde_json::Value>>(&u).unwrap());
                a.sort_by_key(ToString::to_string);
                b.sort_by_key(ToString::to_string);
                ck!(a == b, "serialises to {t}, expected the elements of {u}");
                Ok(())
            }),
            _ => {}
        }
    }
}

fn go(cx: &mut Cx, mode: Mode) { emitted::all(&mut Vis { cx, mode }); }

/// Keys that are expressions rather than literals: distinct ones only, see DESIGN.md.
fn nonliteral(cx: &mut Cx) {
    use frozen_collections::*;
    fn k(i: u64) -> u64 { i * 31 + 5 }
    fn s(i: u64) -> String { format!("s{}", i * 31) }
    cx.case("nonliteral", &0, true, |_| -> R {
        let p: Vec<u64> = (0..400).collect();
        macro_rules! t { ($($i:literal),*) => { {
            let src: Vec<(u64, u32)> = vec![$((k($i), $i)),*];
            let ks: Vec<u64> = src.iter().map(|e| e.0).collect();
            let mut m = fz_hash_map!({ $(k($i): $i as u32),* }); lookups(&mut m, &src, &p)?; contents(&m, &src)?;
            let mut m = fz_ordered_map!({ $(k($i): $i as u32),* }); lookups(&mut m, &src, &p)?; contents(&m, &src)?;
            let mut m = fz_scalar_map!({ $(k($i): $i as u32),* }); lookups(&mut m, &src, &p)?; contents(&m, &src)?;
            let m = fz_hash_set!({ $(k($i)),* }); lookups_set(&m, &ks, &p)?;
            let m = fz_ordered_set!({ $(k($i)),* }); lookups_set(&m, &ks, &p)?;
            let m = fz_scalar_set!({ $(k($i)),* }); lookups_set(&m, &ks, &p)?;
        } } }
        t!(3);
        t!(9, 2);
        t!(1, 5, 3);
        t!(4, 3, 2, 1);
        t!(4, 3, 2, 1, 7, 8, 9, 6, 5);
        t!(10, 1, 9, 2, 8, 3, 7, 4, 6, 5, 11);
        macro_rules! u { ($($i:literal),*) => { {
            let src: Vec<(Box<str>, u32)> = vec![$((s($i).into_boxed_str(), $i)),*];
            let m = fz_string_map!({ $(s($i): $i as u32),* });
            ck!(m.len() == src.len(), "len");
            for (k, v) in &src { ck!(m.get(&**k) == Some(v), "get({k})"); ck!(m.get(&*format!("{k}x")).is_none(), "get({k}x)"); }
            let m = fz_string_set!({ $(s($i)),* });
            ck!(m.len() == src.len(), "len");
            for (k, _) in &src { ck!(m.contains(&**k), "contains({k})"); ck!(!m.contains(&*format!("x{k}")), "contains(x{k})"); }
        } } }
        u!(3);
        u!(9, 2);
        u!(1, 5, 3);
        u!(4, 3, 2, 1);
        u!(4, 3, 2, 1, 7, 8, 9, 6, 5);
        Ok(())
    });
}

pub fn c12(cx: &mut Cx) { go(cx, Mode::Lookup); nonliteral(cx); }
pub fn mutate(cx: &mut Cx) { go(cx, Mode::Mutate); }
pub fn iterate(cx: &mut Cx) { go(cx, Mode::Iterate); }
pub fn equal(cx: &mut Cx) { go(cx, Mode::Equal); }
pub fn disjoint(cx: &mut Cx) { go(cx, Mode::Disjoint); }
pub fn storage(cx: &mut Cx) { go(cx, Mode::Storage); }
pub fn serial(cx: &mut Cx) { go(cx, Mode::Serial); }
