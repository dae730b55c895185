//! C08–C11, C18: iteration, set algebra, equality, serialisation.
use crate::ck;
use crate::cx::{Cx, R};
use crate::each_u64_map;
use crate::keys::*;
use crate::pa::sizes;
use crate::probe::*;
use frozen_collections::maps::*;
use frozen_collections::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

fn at<T>(n: &str, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|e| format!("{n}: {e}"))
}

pub fn c08(cx: &mut Cx) {
    let g = "iter/maps";
    for i in 0..cx.reps(120, 2000) {
        let mut r = cx.rng(g, i);
        let n = if i < 12 { i } else { r.range(1, 40) };
        let src = tagged(&gen_keys(&mut r, n));
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src), n > 0, |(mode, src)| {
            let want = model(src);
            each_u64_map!(src, *mode, |nm, m| { at(nm, m.iters_(&want))?; });
            Ok(())
        });
    }
    let g = "iter/sets";
    for i in 0..cx.reps(200, 3000) {
        let mut r = cx.rng(g, i);
        let n = if i < 12 { i } else { r.range(1, 40) };
        let ks = gen_keys(&mut r, n);
        cx.case(g, &ks, n > 0, |ks| {
            let want: Vec<u64> = ks.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
            at("FzHashSet", FzHashSet::<_>::new(ks.clone()).iters_(&want))?;
            at("FzHashSet<4>", FzHashSet::with_hasher(ks.clone(), Bh::<4>).iters_(&want))?;
            at("FzOrderedSet", FzOrderedSet::new(ks.clone()).iters_(&want))?;
            at("FzScalarSet", FzScalarSet::new(ks.clone()).iters_(&want))?;
            let sb: Vec<Box<str>> = ks.iter().map(|k| k.to_string().into_boxed_str()).collect();
            let wb: Vec<Box<str>> = want.iter().map(|k| k.to_string().into_boxed_str()).collect();
            at("FzStringSet", FzStringSet::<Box<str>, Bh<6>>::with_hasher(sb, Bh::<6>).iters_(&wb))
        });
    }
    let g = "iter/strings";
    for i in 0..cx.reps(120, 2000) {
        let mut r = cx.rng(g, i);
        let n = if i < 8 { i } else { r.range(1, 40) };
        let ks = gen_strings(&mut r, n);
        cx.case(g, &ks, n > 0, |ks| {
            let src: Vec<(Box<str>, u32)> = ks.iter().enumerate().map(|(i, k)| (k.as_str().into(), i as u32)).collect();
            let want = model(&src);
            at("FzStringMap", FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<6>).iters_(&want))?;
            at("FzStringMap<4>", FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<4>).iters_(&want))
        });
    }
    fn sc<T: Sc>(cx: &mut Cx) {
        let g = format!("iter/{}", T::NAME);
        for i in 0..cx.reps(12, 200) {
            let mut r = cx.rng(&g, i);
            let n = if i < 3 { i } else { r.range(0, 50) };
            let ks = gen_scalars::<T>(&mut r, n);
            cx.case(&g, &ks, n > 0, |ks| {
                let src = tagged(ks);
                at("FzScalarMap", FzScalarMap::new(src.clone()).iters_(&model(&src)))?;
                let want: Vec<T> = ks.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
                at("FzScalarSet", FzScalarSet::new(ks.clone()).iters_(&want))
            });
        }
    }
    crate::each_scalar!(sc(cx));
    let g = "iter/drops";
    // consuming iterators hand over or drop every entry exactly once
    for i in 0..cx.reps(60, 600) {
        let mut r = cx.rng(g, i);
        let n = r.range(0, 30);
        let taken = r.below(n + 2);
        let ks = gen_keys(&mut r, n);
        cx.case(g, &(taken, ks), n > 0, |(taken, ks)| {
            use std::rc::Rc;
            fn chk(n: &str, taken: u64, live: &[Rc<()>], it: impl Iterator) -> R {
                let mut it = it;
                let mut kept = Vec::new();
                for _ in 0..taken {
                    if let Some(x) = it.next() { kept.push(x); }
                }
                drop(it);
                drop(kept);
                ck!(live.iter().all(|r| Rc::strong_count(r) == 1), "{n}: counts {:?}", live.iter().map(Rc::strong_count).collect::<Vec<_>>());
                Ok(())
            }
            macro_rules! t { ($nm:literal, $mk:expr, $it:ident) => { {
                let live: Vec<Rc<()>> = ks.iter().map(|_| Rc::new(())).collect();
                let src: Vec<(u64, Rc<()>)> = ks.iter().copied().zip(live.iter().cloned()).collect();
                let m = $mk(src);
                chk(concat!($nm, "::", stringify!($it)), *taken, &live, m.$it())?;
            } } }
            macro_rules! k { ($nm:literal, $mk:expr) => { {
                {
                    let live: Vec<Rc<()>> = ks.iter().map(|_| Rc::new(())).collect();
                    let src: Vec<(u64, Rc<()>)> = ks.iter().copied().zip(live.iter().cloned()).collect();
                    let m = $mk(src);
                    chk(concat!($nm, "::into_iter"), *taken, &live, IntoIterator::into_iter(m))?;
                }
                t!($nm, $mk, into_keys);
                t!($nm, $mk, into_values);
            } } }
            k!("FzHashMap", |s| FzHashMap::<u64, Rc<()>>::new(s));
            k!("FzOrderedMap", |s| FzOrderedMap::<u64, Rc<()>>::new(s));
            k!("FzScalarMap", |s| FzScalarMap::<u64, Rc<()>>::new(s));
            k!("ScanMap", |s| ScanMap::<u64, Rc<()>>::new(s));
            Ok(())
        });
    }
}

fn sorted<T: Ord + Clone>(v: Vec<T>) -> Vec<T> {
    let mut v = v;
    v.sort();
    v
}

/// The exact results of every operation, step by step, with hints.
fn algebra<T: Ord + Clone + Debug, A: Set<T>, B: Set<T>>(n: &str, a: &A, b: &B, ma: &BTreeSet<T>, mb: &BTreeSet<T>, hints: bool) -> R {
    macro_rules! op { ($op:ident) => { {
        let want: Vec<T> = ma.$op(mb).cloned().collect();
        let got: Vec<T> = sorted(SetOps::$op(a, b).cloned().collect());
        ck!(got == want, "{n}: {} of {ma:?} and {mb:?} is {got:?}", stringify!($op));
        let mut got = Vec::new();
        SetOps::$op(a, b).for_each(|x: &T| got.push(x.clone()));
        ck!(sorted(got.clone()) == want, "{n}: {} of {ma:?} and {mb:?} folds to {got:?}", stringify!($op));
        let c = SetOps::$op(a, b).count();
        ck!(c == want.len(), "{n}: {} of {ma:?} and {mb:?} counts {c}", stringify!($op));
        let mut it = SetOps::$op(a, b);
        let mut seen: Vec<T> = Vec::new();
        for pos in 0..=want.len() {
            let left = want.len() - pos;
            let (lo, hi) = it.size_hint();
            if hints {
                ck!(lo <= left && hi.is_none_or(|h| left <= h), "{n}: {} of {ma:?} and {mb:?}: size_hint {:?} with {left} left after {seen:?}", stringify!($op), (lo, hi));
            }
            if let Some(x) = it.next() { seen.push(x.clone()); }
        }
        ck!(sorted(seen.clone()) == want, "{n}: {} of {ma:?} and {mb:?} steps through {seen:?}", stringify!($op));
        for _ in 0..2 {
            let (lo, hi) = it.size_hint();
            if hints {
                ck!(lo == 0, "{n}: {} of {ma:?} and {mb:?}: size_hint {:?} after the end", stringify!($op), (lo, hi));
            }
            ck!(it.next().is_none(), "{n}: {} of {ma:?} and {mb:?} yields more after the end", stringify!($op));
        }
        for pos in 0..=want.len() {
            macro_rules! from { () => { { let mut it = SetOps::$op(a, b); for _ in 0..pos { let _ = it.next(); } it } } }
            let (lo, hi) = from!().size_hint();
            let cnt: usize = from!().count();
            let left = want.len() - pos;
            if hints {
                ck!(lo <= left && hi.is_none_or(|h| left <= h), "{n}: {} after {pos}: size_hint {:?} but {left} left", stringify!($op), (lo, hi));
            }
            let f: usize = from!().fold(0, |k, _| k + 1);
            let nth = from!().nth(0).is_some();
            let rest = |what: &str, k: usize, it: &mut dyn Iterator<Item = &T>| -> R {
                let got: Vec<T> = it.cloned().collect();
                let all = sorted(seen[..pos].iter().chain(&got).cloned().collect::<Vec<T>>());
                let mut u = all.clone();
                u.dedup();
                ck!(u.len() == all.len() && got.len() == left.saturating_sub(k) && got.iter().all(|x| want.contains(x)), "{n}: {} of {ma:?} and {mb:?}: {pos} times next and {what} leave {got:?}", stringify!($op));
                Ok(())
            };
            let mut folded = Vec::new();
            from!().fold((), |(), x: &T| folded.push(x.clone()));
            rest("a fold", 0, &mut folded.iter())?;
            for k in [0, 1, 2, left] {
                let mut it = from!();
                let x = it.nth(k).cloned();
                ck!(x.is_some() == (k < left), "{n}: {} of {ma:?} and {mb:?}: {pos} times next and nth({k}) give {x:?} with {left} left", stringify!($op));
                if let Some(x) = x { ck!(want.contains(&x), "{n}: {} of {ma:?} and {mb:?}: nth({k}) gives {x:?}", stringify!($op)); }
                rest("nth", k + 1, &mut it)?;
            }
            let (x, mx, mn) = (from!().last().cloned(), from!().max().cloned(), from!().min().cloned());
            ck!(x.is_some() == (left > 0) && x.is_none_or(|x| want.contains(&x)), "{n}: {} of {ma:?} and {mb:?} after {pos}: last", stringify!($op));
            let tail = sorted(folded.clone());
            ck!(mx.as_ref() == tail.last() && mn.as_ref() == tail.first(), "{n}: {} of {ma:?} and {mb:?} after {pos}: max {mx:?}, min {mn:?}", stringify!($op));
            ck!(cnt == left && f == left && nth == (left > 0), "{n}: {} of {ma:?} and {mb:?} after {pos}: count {cnt}, fold {f}", stringify!($op));
            if hints {
                let mut it = from!();
                let _ = it.nth(1);
                let (lo, hi) = it.size_hint();
                let left = left.saturating_sub(2);
                ck!(lo <= left && hi.is_none_or(|h| left <= h), "{n}: {} after nth: size_hint {:?} but {left} left", stringify!($op), (lo, hi));
            }
        }
    } } }
    op!(union);
    op!(intersection);
    op!(difference);
    op!(symmetric_difference);
    ck!(SetOps::is_disjoint(a, b) == ma.is_disjoint(mb), "{n}: is_disjoint of {ma:?} and {mb:?}");
    ck!(SetOps::is_subset(a, b) == ma.is_subset(mb), "{n}: is_subset of {ma:?} and {mb:?}");
    ck!(SetOps::is_superset(a, b) == ma.is_superset(mb), "{n}: is_superset of {ma:?} and {mb:?}");
    Ok(())
}

macro_rules! ops_form {
    ($n:expr, $a:expr, $b:expr, $ma:expr, $mb:expr) => {{
        macro_rules! o { ($f:tt, $op:ident) => { {
            let got = &$a $f &$b;
            let got: BTreeSet<_> = got.iter().cloned().collect();
            let want: BTreeSet<_> = $ma.$op($mb).cloned().collect();
            ck!(got == want, "{}: operator {} of {:?} and {:?} is {got:?}", $n, stringify!($op), $ma, $mb);
        } } }
        o!(|, union);
        o!(&, intersection);
        o!(-, difference);
        o!(^, symmetric_difference);
    }};
}

/// Clones of iterators that were advanced: a clone yields what is left of the original.
macro_rules! clones_form {
    ($n:expr, $a:expr, $b:expr, $ma:expr, $mb:expr, $hints:expr) => {{
        macro_rules! o { ($op:ident) => { {
            let want: Vec<u64> = $ma.$op($mb).cloned().collect();
            let mut it = SetOps::$op(&$a, &$b);
            let mut seen: Vec<u64> = Vec::new();
            for pos in 0..=want.len() + 1 {
                let c = it.clone();
                let ((lo, hi), left) = (c.size_hint(), want.len().saturating_sub(pos));
                if $hints {
                    ck!(lo <= left && hi.is_none_or(|h| left <= h), "{}: {} of {:?} and {:?}: size_hint {:?} of a clone with {left} left", $n, stringify!($op), $ma, $mb, (lo, hi));
                }
                let all: Vec<u64> = sorted(seen.iter().copied().chain(c.copied()).collect());
                ck!(all == want, "{}: {} of {:?} and {:?}: {pos} items and then its clone give {all:?}", $n, stringify!($op), $ma, $mb);
                seen.extend(it.next());
            }
            ck!(sorted(seen.clone()) == want, "{}: {} of {:?} and {:?} while being cloned gives {seen:?}", $n, stringify!($op), $ma, $mb);
        } } }
        o!(union);
        o!(intersection);
        o!(difference);
        o!(symmetric_difference);
    }};
}

fn subset(uni: &[u64], mask: u32) -> Vec<u64> {
    uni.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| *k).collect()
}

fn pairs(uni: &[u64], x: u32, y: u32, hints: bool) -> R {
    let (va, vb) = (subset(uni, x), subset(uni, y));
    let ma: BTreeSet<u64> = va.iter().copied().collect();
    let mb: BTreeSet<u64> = vb.iter().copied().collect();
    macro_rules! rhs { ($n:literal, $a:expr, $ops:tt) => { {
        let a = $a;
        rhs!(@ $n, a, "FzHashSet", FzHashSet::<u64>::new(vb.clone()), $ops);
        rhs!(@ $n, a, "FzHashSet<0>", FzHashSet::<u64, Bh<0>>::with_hasher(vb.clone(), Bh), $ops);
        rhs!(@ $n, a, "FzOrderedSet", FzOrderedSet::new(vb.clone()), $ops);
        rhs!(@ $n, a, "FzScalarSet", FzScalarSet::new(vb.clone()), $ops);
        rhs!(@ $n, a, "std HashSet", std::collections::HashSet::<u64>::from_iter(vb.iter().copied()), $ops);
        rhs!(@ $n, a, "BTreeSet", BTreeSet::from_iter(vb.iter().copied()), $ops);
        rhs!(@ $n, a, "hashbrown", hashbrown::HashSet::<u64>::from_iter(vb.iter().copied()), $ops);
    } };
    (@ $n:literal, $a:ident, $m:literal, $b:expr, yes) => { {
        let b = $b;
        let nm = concat!($n, " and ", $m);
        algebra(nm, &$a, &b, &ma, &mb, hints)?;
        ops_form!(nm, $a, b, &ma, &mb);
    } };
    (@ $n:literal, $a:ident, $m:literal, $b:expr, no) => { {
        let b = $b;
        algebra(concat!($n, " and ", $m), &$a, &b, &ma, &mb, hints)?;
    } } }
    rhs!("FzHashSet", FzHashSet::<u64>::new(va.clone()), yes);
    rhs!("FzOrderedSet", FzOrderedSet::new(va.clone()), yes);
    rhs!("FzScalarSet", FzScalarSet::new(va.clone()), yes);
    rhs!("std HashSet", std::collections::HashSet::<u64>::from_iter(va.iter().copied()), no);
    rhs!("BTreeSet", BTreeSet::from_iter(va.iter().copied()), no);
    rhs!("hashbrown", hashbrown::HashSet::<u64>::from_iter(va.iter().copied()), no);
    let (a, b) = (FzHashSet::<u64>::new(va.clone()), FzScalarSet::new(vb.clone()));
    clones_form!("FzHashSet and FzScalarSet", a, b, &ma, &mb, hints);
    let (a, b) = (FzOrderedSet::new(va.clone()), BTreeSet::from_iter(vb.iter().copied()));
    clones_form!("FzOrderedSet and BTreeSet", a, b, &ma, &mb, hints);
    // strings
    let bx = |v: &[u64]| -> Vec<Box<str>> { v.iter().map(|k| format!("s{k}").into_boxed_str()).collect() };
    let (sa, sb) = (bx(&va), bx(&vb));
    let msa: BTreeSet<Box<str>> = sa.iter().cloned().collect();
    let msb: BTreeSet<Box<str>> = sb.iter().cloned().collect();
    let a = FzStringSet::<Box<str>, Bh<6>>::with_hasher(sa.clone(), Bh);
    let b = FzStringSet::<Box<str>, Bh<4>>::with_hasher(sb.clone(), Bh);
    algebra("FzStringSet and FzStringSet", &a, &b, &msa, &msb, hints)?;
    ops_form!("FzStringSet and FzStringSet", a, b, &msa, &msb);
    let c: std::collections::HashSet<Box<str>> = sb.iter().cloned().collect();
    algebra("FzStringSet and std HashSet", &a, &c, &msa, &msb, hints)?;
    ops_form!("FzStringSet and std HashSet", a, c, &msa, &msb);
    Ok(())
}

fn algebra_all(cx: &mut Cx, g: &str, hints: bool) {
    let g1 = format!("{g}/exhaustive");
    let u = if cx.small { 3 } else if cx.thorough { 6 } else { 5 };
    for (z, uni) in [vec![1u64, 2, 3, 4, 5, 6], vec![0, 9, 10, 500, 1 << 40, u64::MAX]].into_iter().enumerate() {
        for x in 0..1u32 << u {
            for y in 0..1u32 << u {
                if z == 1 && !cx.thorough && (x * 31 + y) % 5 != 0 { continue; }
                cx.case(&g1, &(z, x, y), x != 0 || y != 0, |&(_, x, y)| pairs(&uni, x, y, hints));
            }
        }
    }
    let g2 = format!("{g}/random");
    for i in 0..cx.reps(100, 1500) {
        let mut r = cx.rng(&g2, i);
        let n = r.range(6, 30);
        let uni: Vec<u64> = gen_keys(&mut r, n).into_iter().collect::<BTreeSet<_>>().into_iter().collect();
        let (x, y) = (r.next() as u32, r.next() as u32);
        let y = if r.below(4) == 0 { x & y } else { y };
        // sets of very different sizes, overlapping or not
        let (few, all) = (r.next() as u32 & r.next() as u32 & r.next() as u32, r.next() as u32 | r.next() as u32 | r.next() as u32);
        let (x, y) = match r.below(7) { 0 => (all, few), 1 => (few, all), 2 => (all & !few, few), 3 => (few, all & !few), 4 => (all, all & !few), _ => (x, y) };
        cx.case(&g2, &(uni, x, y), true, |(uni, x, y)| pairs(uni, *x, *y, hints));
    }
}

pub fn c09(cx: &mut Cx) {
    algebra_all(cx, "algebra", false);
}
pub fn c10(cx: &mut Cx) {
    algebra_all(cx, "hints", true);
}

pub fn c11(cx: &mut Cx) {
    let g = "eq/maps";
    for i in 0..cx.reps(1500, 20000) {
        let mut r = cx.rng(g, i);
        let n = if i < 8 { i % 4 } else { r.range(1, 24) };
        let a = tagged(&gen_keys(&mut r, n));
        let mut b: Vec<(u64, u32)> = model(&a);
        r.shuffle(&mut b);
        match r.below(9) {
            0 if !b.is_empty() => { let j = r.below(b.len() as u64) as usize; b[j].1 ^= 1 << r.below(32); }
            1 if !b.is_empty() => { let j = r.below(b.len() as u64) as usize; b.remove(j); }
            2 => b.push((r.next(), 5)),
            3 if !b.is_empty() => { let j = r.below(b.len() as u64) as usize; b[j].0 = b[j].0.wrapping_add(1); }
            4 if b.len() >= 2 => { let t = b[0].1; b[0].1 = b[1].1; b[1].1 = t; }
            5 => { let n = r.below(20); b = tagged(&gen_keys(&mut r, n)); }
            _ => {}
        }
        cx.case(g, &(a, b), n > 0, |(a, b)| {
            let ma: BTreeMap<u64, u32> = a.iter().copied().collect();
            let mb: BTreeMap<u64, u32> = b.iter().copied().collect();
            let w = ma == mb;
            macro_rules! l { ($n:literal, $x:expr) => { {
                let x = $x;
                l!(@ $n, x, "FzHashMap", FzHashMap::<u64, u32>::new(b.clone()));
                l!(@ $n, x, "FzHashMap<4>", FzHashMap::with_hasher(b.clone(), Bh::<4>));
                l!(@ $n, x, "FzOrderedMap", FzOrderedMap::new(b.clone()));
                l!(@ $n, x, "FzScalarMap", FzScalarMap::new(b.clone()));
                l!(@ $n, x, "ScanMap", ScanMap::new(b.clone()));
                l!(@ $n, x, "EytzingerSearchMap", EytzingerSearchMap::new(b.clone()));
                l!(@ $n, x, "std HashMap", std::collections::HashMap::<u64, u32>::from_iter(b.iter().copied()));
                l!(@ $n, x, "BTreeMap", mb.clone());
                l!(@ $n, x, "hashbrown", hashbrown::HashMap::<u64, u32>::from_iter(b.iter().copied()));
                if let Ok(y) = DenseScalarLookupMap::new(b.clone()) { l!(@ $n, x, "DenseScalarLookupMap", y); }
            } };
            (@ $n:literal, $x:ident, $m:literal, $y:expr) => { {
                let y = $y;
                #[allow(clippy::nonminimal_bool)]
                let (e, ne) = ($x == y, $x != y);
                ck!(e == w && ne != w, "{} == {} is {e}, != is {ne}, contents equal: {w}", $n, $m);
            } } }
            l!("FzHashMap", FzHashMap::<u64, u32>::new(a.clone()));
            l!("FzHashMap<0>", FzHashMap::with_hasher(a.clone(), Bh::<0>));
            l!("FzOrderedMap", FzOrderedMap::new(a.clone()));
            l!("FzScalarMap", FzScalarMap::new(a.clone()));
            l!("ScanMap", ScanMap::new(a.clone()));
            l!("EytzingerSearchMap", EytzingerSearchMap::new(a.clone()));
            l!("HashMap<Small>", HashMap::<u64, u32, SmallCollection, H>::with_hasher(a.clone(), H(6))?);
            if crate::pa::span(a) < 100_000 { l!("SparseScalarLookupMap", SparseScalarLookupMap::new(a.clone())); }
            if let Ok(x) = DenseScalarLookupMap::new(a.clone()) { l!("DenseScalarLookupMap", x); }
            // strings
            let s = |v: &[(u64, u32)]| -> Vec<(Box<str>, u32)> { v.iter().map(|e| (format!("k{}", e.0).into_boxed_str(), e.1)).collect() };
            let x = FzStringMap::<Box<str>, u32, _>::with_hasher(s(a), Bh::<6>);
            let y = FzStringMap::<Box<str>, u32, _>::with_hasher(s(b), Bh::<4>);
            ck!((x == y) == w && (y == x) == w, "FzStringMap == FzStringMap is {}, contents equal: {w}", x == y);
            let z: std::collections::HashMap<Box<str>, u32> = s(b).into_iter().collect();
            ck!((x == z) == w, "FzStringMap == HashMap is {}, contents equal: {w}", x == z);
            Ok(())
        });
    }
    let g = "eq/sets";
    for i in 0..cx.reps(1500, 20000) {
        let mut r = cx.rng(g, i);
        let n = if i < 8 { i % 4 } else { r.range(1, 24) };
        let a = gen_keys(&mut r, n);
        let mut b = a.clone();
        r.shuffle(&mut b);
        match r.below(7) {
            0 if !b.is_empty() => { let j = r.below(b.len() as u64) as usize; b.remove(j); }
            1 => b.push(r.next()),
            2 if !b.is_empty() => { let j = r.below(b.len() as u64) as usize; b[j] = b[j].wrapping_add(1); }
            3 => { let n = r.below(20); b = gen_keys(&mut r, n); }
            _ => {}
        }
        cx.case(g, &(a, b), n > 0, |(a, b)| {
            let ma: BTreeSet<u64> = a.iter().copied().collect();
            let mb: BTreeSet<u64> = b.iter().copied().collect();
            let w = ma == mb;
            macro_rules! l { ($n:literal, $x:expr) => { {
                let x = $x;
                l!(@ $n, x, "FzHashSet", FzHashSet::<u64>::new(b.clone()));
                l!(@ $n, x, "FzHashSet<4>", FzHashSet::with_hasher(b.clone(), Bh::<4>));
                l!(@ $n, x, "FzOrderedSet", FzOrderedSet::new(b.clone()));
                l!(@ $n, x, "FzScalarSet", FzScalarSet::new(b.clone()));
                l!(@ $n, x, "std HashSet", std::collections::HashSet::<u64>::from_iter(b.iter().copied()));
                l!(@ $n, x, "BTreeSet", mb.clone());
                l!(@ $n, x, "hashbrown", hashbrown::HashSet::<u64>::from_iter(b.iter().copied()));
            } };
            (@ $n:literal, $x:ident, $m:literal, $y:expr) => { {
                let y = $y;
                let (e, ne) = ($x == y, $x != y);
                ck!(e == w && ne != w, "{} == {} is {e}, != is {ne}, contents equal: {w}", $n, $m);
            } } }
            l!("FzHashSet", FzHashSet::<u64>::new(a.clone()));
            l!("FzHashSet<0>", FzHashSet::with_hasher(a.clone(), Bh::<0>));
            l!("FzOrderedSet", FzOrderedSet::new(a.clone()));
            l!("FzScalarSet", FzScalarSet::new(a.clone()));
            let s = |v: &[u64]| -> Vec<Box<str>> { v.iter().map(|e| format!("k{e}").into_boxed_str()).collect() };
            let x = FzStringSet::<Box<str>, _>::with_hasher(s(a), Bh::<6>);
            let y = FzStringSet::<Box<str>, _>::with_hasher(s(b), Bh::<4>);
            ck!((x == y) == w && (y == x) == w, "FzStringSet == FzStringSet is {}, contents equal: {w}", x == y);
            Ok(())
        });
    }
}

fn check_text(n: &str, json: &str, want: &BTreeMap<String, u32>) -> R {
    let v: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("{n}: emitted text does not parse: {e}: {json}"))?;
    let o = v.as_object().ok_or_else(|| format!("{n}: emitted {json}"))?;
    ck!(o.len() == want.len(), "{n}: emitted {json}, expected {want:?}");
    for (k, v) in want {
        ck!(o.get(k).and_then(serde_json::Value::as_u64) == Some(u64::from(*v)), "{n}: emitted {json}, expected {want:?}");
    }
    // serde_json keeps the last of repeated members: count them in the text instead
    let mut d = serde_json::Deserializer::from_str(json);
    struct Count(usize);
    impl<'de> serde::de::Visitor<'de> for Count {
        type Value = usize;
        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("map") }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<usize, A::Error> {
            let mut c = self.0;
            while m.next_entry::<serde::de::IgnoredAny, serde::de::IgnoredAny>()?.is_some() { c += 1; }
            Ok(c)
        }
    }
    let c = serde::Deserializer::deserialize_map(&mut d, Count(0)).map_err(|e| e.to_string())?;
    ck!(c == want.len(), "{n}: emitted {c} members, expected {}: {json}", want.len());
    Ok(())
}

fn de_all<T: serde::de::DeserializeOwned>(n: &str, json: &str, chk: &dyn Fn(&T) -> R) -> R {
    let a: T = serde_json::from_str(json).map_err(|e| format!("{n}: from_str of {json}: {e}"))?;
    at(n, chk(&a))?;
    let a: T = serde_json::from_slice(json.as_bytes()).map_err(|e| format!("{n}: from_slice of {json}: {e}"))?;
    at(n, chk(&a))?;
    let a: T = serde_json::from_reader(json.as_bytes()).map_err(|e| format!("{n}: from_reader of {json}: {e}"))?;
    at(n, chk(&a))?;
    Ok(())
}

/// A format that may know nothing, or the wrong thing, about how many entries are left, and that may break off with an error.
struct Hinted<T> { items: std::vec::IntoIter<T>, val: Option<T>, hint: Option<usize>, breaks: bool }
type E0 = serde::de::value::Error;
impl<T> Hinted<T> {
    fn new(items: Vec<T>, hint: Option<usize>, breaks: bool) -> Self { Self { items: items.into_iter(), val: None, hint, breaks } }
    fn end(&self) -> Result<(), E0> { if self.breaks { Err(serde::de::Error::custom("broke off")) } else { Ok(()) } }
}
impl<'de, K: serde::de::IntoDeserializer<'de, E0> + Clone, V: serde::de::IntoDeserializer<'de, E0> + Clone> serde::de::MapAccess<'de> for Hinted<(K, V)> {
    type Error = E0;
    fn next_key_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E0> {
        self.val = self.items.next();
        match &self.val { Some(e) => s.deserialize(e.0.clone().into_deserializer()).map(Some), None => self.end().map(|()| None) }
    }
    fn next_value_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E0> {
        s.deserialize(self.val.take().expect("a value after its key").1.into_deserializer())
    }
    fn size_hint(&self) -> Option<usize> { self.hint }
}
struct HintedMap<K, V>(Hinted<(K, V)>);
impl<'de, K: serde::de::IntoDeserializer<'de, E0> + Clone, W: serde::de::IntoDeserializer<'de, E0> + Clone> serde::Deserializer<'de> for HintedMap<K, W> {
    type Error = E0;
    fn deserialize_any<X: serde::de::Visitor<'de>>(self, v: X) -> Result<X::Value, E0> { v.visit_map(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct HintedSeq<K>(Hinted<K>);
impl<'de, K: serde::de::IntoDeserializer<'de, E0>> serde::de::SeqAccess<'de> for HintedSeq<K> {
    type Error = E0;
    fn next_element_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E0> {
        match self.0.items.next() { Some(e) => s.deserialize(e.into_deserializer()).map(Some), None => self.0.end().map(|()| None) }
    }
    fn size_hint(&self) -> Option<usize> { self.0.hint }
}
impl<'de, K: serde::de::IntoDeserializer<'de, E0>> serde::Deserializer<'de> for HintedSeq<K> {
    type Error = E0;
    fn deserialize_any<X: serde::de::Visitor<'de>>(self, v: X) -> Result<X::Value, E0> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn hints(n: usize) -> [Option<usize>; 6] { [None, Some(0), Some(1), Some(n / 2), Some(n), Some(n + 3)] }
fn hinted_maps<K, K2, V2, T>(n: &str, items: &[(K, V2)], key: &dyn Fn(&K) -> K2, chk: &dyn Fn(&T) -> R) -> R
where K2: serde::de::IntoDeserializer<'static, E0> + Clone, V2: serde::de::IntoDeserializer<'static, E0> + Clone, T: serde::Deserialize<'static> {
    let its = || items.iter().map(|e| (key(&e.0), e.1.clone())).collect::<Vec<_>>();
    for h in hints(items.len()) {
        let m: T = serde::Deserialize::deserialize(HintedMap(Hinted::new(its(), h, false))).map_err(|e| format!("{n} with size hint {h:?}: {e}"))?;
        at(&format!("{n} with size hint {h:?} for {} entries", items.len()), chk(&m))?;
        let m: Result<T, E0> = serde::Deserialize::deserialize(HintedMap(Hinted::new(its(), h, true)));
        ck!(m.is_err(), "{n}: a format that breaks off with an error after {} entries gives a collection", items.len());
    }
    Ok(())
}
fn hinted_sets<K, K2, T>(n: &str, items: &[K], key: &dyn Fn(&K) -> K2, chk: &dyn Fn(&T) -> R) -> R
where K2: serde::de::IntoDeserializer<'static, E0>, T: serde::Deserialize<'static> {
    let its = || items.iter().map(key).collect::<Vec<_>>();
    for h in hints(items.len()) {
        let m: T = serde::Deserialize::deserialize(HintedSeq(Hinted::new(its(), h, false))).map_err(|e| format!("{n} with size hint {h:?}: {e}"))?;
        at(&format!("{n} with size hint {h:?} for {} elements", items.len()), chk(&m))?;
        let m: Result<T, E0> = serde::Deserialize::deserialize(HintedSeq(Hinted::new(its(), h, true)));
        ck!(m.is_err(), "{n}: a format that breaks off with an error after {} elements gives a collection", items.len());
    }
    Ok(())
}

pub fn c18(cx: &mut Cx) {
    use serde::de::IntoDeserializer;
    let g = "serde/maps";
    for i in 0..cx.reps(500, 6000) {
        let mut r = cx.rng(g, i);
        let n = if i < 6 { i } else { sizes(&mut r).min(80) };
        let src = tagged(&gen_keys(&mut r, n));
        cx.case(g, &src, n > 0, |src| {
            let want: BTreeMap<String, u32> = src.iter().map(|e| (e.0.to_string(), e.1)).collect();
            each_u64_map!(src, 6, |nm, m| {
                let j = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                check_text(nm, &j, &want)?;
            });
            // a text with the repeated keys still in it
            let text = format!("{{{}}}", src.iter().map(|e| format!("\"{}\":{}", e.0, e.1)).collect::<Vec<_>>().join(", "));
            de_all::<FzHashMap<u64, u32>>("FzHashMap", &text, &|m| { contents(m, src)?; lookups(&mut m.clone(), src, &[]) })?;
            de_all::<FzHashMap<u64, u32, Bh<6>>>("FzHashMap<6>", &text, &|m| contents(m, src))?;
            de_all::<FzOrderedMap<u64, u32>>("FzOrderedMap", &text, &|m| { contents(m, src)?; lookups(&mut m.clone(), src, &[]) })?;
            de_all::<FzScalarMap<u64, u32>>("FzScalarMap", &text, &|m| { contents(m, src)?; lookups(&mut m.clone(), src, &[]) })?;
            let j = serde_json::to_string(&FzScalarMap::new(src.clone())).map_err(|e| e.to_string())?;
            de_all::<FzScalarMap<u64, u32>>("FzScalarMap round trip", &j, &|m| { ck!(*m == FzScalarMap::new(src.clone()), "not equal after round trip"); Ok(()) })?;
            let j = serde_json::to_string(&FzHashMap::<u64, u32>::new(src.clone())).map_err(|e| e.to_string())?;
            de_all::<FzHashMap<u64, u32>>("FzHashMap round trip", &j, &|m| { ck!(*m == FzHashMap::<u64, u32>::new(src.clone()), "not equal after round trip"); Ok(()) })?;
            let j = serde_json::to_string(&FzOrderedMap::new(src.clone())).map_err(|e| e.to_string())?;
            de_all::<FzOrderedMap<u64, u32>>("FzOrderedMap round trip", &j, &|m| { ck!(*m == FzOrderedMap::new(src.clone()), "not equal after round trip"); Ok(()) })?;
            // a deserializer without text
            let d: serde::de::value::MapDeserializer<'_, _, serde::de::value::Error> = serde::de::value::MapDeserializer::new(src.iter().copied());
            let m: FzOrderedMap<u64, u32> = serde::Deserialize::deserialize(d).map_err(|e| format!("MapDeserializer: {e}"))?;
            contents(&m, src)?;
            hinted_maps::<_, _, _, FzHashMap<u64, u32>>("FzHashMap", src, &|k| *k, &|m| contents(m, src))?;
            hinted_maps::<_, _, _, FzOrderedMap<u64, u32>>("FzOrderedMap", src, &|k| *k, &|m| contents(m, src))?;
            hinted_maps::<_, _, _, FzScalarMap<u64, u32>>("FzScalarMap", src, &|k| *k, &|m| contents(m, src))
        });
    }
    let g = "serde/sets";
    for i in 0..cx.reps(500, 6000) {
        let mut r = cx.rng(g, i);
        let n = if i < 6 { i } else { sizes(&mut r).min(80) };
        let ks = gen_keys(&mut r, n);
        cx.case(g, &ks, n > 0, |ks| {
            let want: BTreeSet<u64> = ks.iter().copied().collect();
            let text = format!("{ks:?}");
            macro_rules! s { ($n:literal, $t:ty, $e:expr) => { {
                let x: $t = $e;
                let j = serde_json::to_string(&x).map_err(|e| e.to_string())?;
                let mut back: Vec<u64> = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                back.sort_unstable();
                ck!(back.iter().eq(want.iter()), "{}: emitted {j}, expected {want:?}", $n);
                de_all::<$t>($n, &text, &|s| lookups_set(s, ks, &[]))?;
                de_all::<$t>(concat!($n, " round trip"), &j, &|s| { ck!(*s == x, "not equal after round trip"); Ok(()) })?;
                let d = ks.clone().into_deserializer();
                let y: $t = serde::Deserialize::deserialize(d).map_err(|e: serde::de::value::Error| format!("SeqDeserializer: {e}"))?;
                lookups_set(&y, ks, &[])?;
                hinted_sets::<_, _, $t>($n, ks, &|k| *k, &|s| lookups_set(s, ks, &[]))?;
            } } }
            s!("FzHashSet", FzHashSet<u64>, FzHashSet::new(ks.clone()));
            s!("FzOrderedSet", FzOrderedSet<u64>, FzOrderedSet::new(ks.clone()));
            s!("FzScalarSet", FzScalarSet<u64>, FzScalarSet::new(ks.clone()));
            Ok(())
        });
    }
    let g = "serde/strings";
    for i in 0..cx.reps(500, 6000) {
        let mut r = cx.rng(g, i);
        let n = if i < 6 { i } else { sizes(&mut r).min(60) };
        let ks = gen_strings(&mut r, n);
        cx.case(g, &ks, n > 0, |ks| {
            let src: Vec<(Box<str>, u32)> = ks.iter().enumerate().map(|(i, k)| (k.as_str().into(), i as u32)).collect();
            let want: BTreeMap<String, u32> = src.iter().map(|e| (e.0.to_string(), e.1)).collect();
            let m = FzStringMap::<Box<str>, u32>::new(src.clone());
            let j = serde_json::to_string(&m).map_err(|e| e.to_string())?;
            check_text("FzStringMap", &j, &want)?;
            check_text("FzStringMap<6>", &serde_json::to_string(&FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<6>)).map_err(|e| e.to_string())?, &want)?;
            de_all::<FzStringMap<Box<str>, u32>>("FzStringMap round trip", &j, &|x| { ck!(*x == m, "not equal after round trip"); contents(x, &src) })?;
            let q = |s: &str| serde_json::to_string(s).unwrap();
            let text = format!("{{{}}}", src.iter().map(|e| format!("{}:{}", q(&e.0), e.1)).collect::<Vec<_>>().join(", "));
            de_all::<FzStringMap<Box<str>, u32>>("FzStringMap", &text, &|x| { contents(x, &src)?; lookups(&mut x.clone(), &src, &[]) })?;
            let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            let x: FzStringMap<Box<str>, u32> = serde_json::from_value(v).map_err(|e| format!("FzStringMap from a value: {e}"))?;
            contents(&x, &src)?;
            hinted_maps::<_, _, _, FzStringMap<Box<str>, u32>>("FzStringMap", &src, &|k| k.to_string(), &|m| contents(m, &src))?;
            let kb: Vec<Box<str>> = src.iter().map(|e| e.0.clone()).collect();
            hinted_sets::<_, _, FzStringSet<Box<str>>>("FzStringSet", &kb, &|k| k.to_string(), &|s| lookups_set(s, &kb, &[]))?;
            let s = FzStringSet::<Box<str>>::new(kb.clone());
            let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            let mut back: Vec<String> = serde_json::from_str(&j).map_err(|e| e.to_string())?;
            back.sort();
            ck!(back.iter().eq(want.keys()), "FzStringSet: emitted {j}, expected {:?}", want.keys());
            de_all::<FzStringSet<Box<str>>>("FzStringSet round trip", &j, &|x| { ck!(*x == s, "not equal after round trip"); Ok(()) })?;
            let text = format!("[{}]", kb.iter().map(|e| q(e)).collect::<Vec<_>>().join(","));
            de_all::<FzStringSet<Box<str>>>("FzStringSet", &text, &|x| lookups_set(x, &kb, &[]))?;
            de_all::<FzStringSet<Box<str>, Bh<4>>>("FzStringSet<4>", &text, &|x| lookups_set(x, &kb, &[]))?;
            let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            let x: FzStringSet<Box<str>> = serde_json::from_value(v).map_err(|e| format!("FzStringSet from a value: {e}"))?;
            lookups_set(&x, &kb, &[])?;
            de_all::<FzHashMap<String, u32>>("FzHashMap<String>", &serde_json::to_string(&m).unwrap(), &|x| { ck!(x.len() == want.len() && want.iter().all(|(k, v)| x.get(k) == Some(v)), "contents"); Ok(()) })?;
            de_all::<FzOrderedMap<String, u32>>("FzOrderedMap<String>", &serde_json::to_string(&m).unwrap(), &|x| { ck!(x.len() == want.len() && want.iter().all(|(k, v)| x.get(k) == Some(v)), "contents"); Ok(()) })
        });
    }
}

