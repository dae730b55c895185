//! C01–C07, C13–C17: lookups, duplicates, mutation, limits, storage.
use crate::ck;
use crate::cx::{Cx, R, Rng, panics};
use crate::each_scalar;
use crate::keys::*;
use crate::probe::*;
use frozen_collections::hashers::{BridgeHasher, LeftRangeHasher, LengthHasher, RightRangeHasher};
use frozen_collections::maps::*;
use frozen_collections::*;
use std::fmt::Debug;

pub type Src = Vec<(u64, u32)>;

fn at<T>(n: &str, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|e| format!("{n}: {e}"))
}

/// Every run-time map kind that takes u64 keys.
#[macro_export]
macro_rules! each_u64_map {
    ($src:expr, $mode:expr, |$n:ident, $m:ident| $b:block) => {{
        use $crate::keys::{Bh, H};
        use frozen_collections::hashers::{BridgeHasher, ScalarHasher};
        let s: &[(u64, u32)] = $src;
        let mode: u8 = $mode;
        { let $n = "ScanMap"; #[allow(unused_mut)] let mut $m = ScanMap::new(s.to_vec()); $b }
        { let $n = "EytzingerSearchMap"; #[allow(unused_mut)] let mut $m = EytzingerSearchMap::new(s.to_vec()); $b }
        if let Ok(x) = HashMap::<u64, u32, SmallCollection, H>::with_hasher(s.to_vec(), H(mode)) {
            let $n = "HashMap<Small>"; #[allow(unused_mut)] let mut $m = x; $b
        }
        if let Ok(x) = HashMap::<u64, u32, MediumCollection, H>::with_hasher(s.to_vec(), H(mode)) {
            let $n = "HashMap<Medium>"; #[allow(unused_mut)] let mut $m = x; $b
        }
        if let Ok(x) = HashMap::<u64, u32, LargeCollection, H>::with_hasher(s.to_vec(), H(mode)) {
            let $n = "HashMap<Large>"; #[allow(unused_mut)] let mut $m = x; $b
        }
        if let Ok(x) = HashMap::<u64, u32, LargeCollection, ScalarHasher>::with_hasher(s.to_vec(), ScalarHasher) {
            let $n = "HashMap<ScalarHasher>"; #[allow(unused_mut)] let mut $m = x; $b
        }
        if let Ok(x) = HashMap::<u64, u32, LargeCollection, BridgeHasher<Bh<6>>>::with_hasher(s.to_vec(), BridgeHasher::new(Bh::<6>)) {
            let $n = "HashMap<BridgeHasher>"; #[allow(unused_mut)] let mut $m = x; $b
        }
        { let $n = "FzHashMap"; #[allow(unused_mut)] let mut $m = FzHashMap::<u64, u32>::new(s.to_vec()); $b }
        { let $n = "FzHashMap<0>"; #[allow(unused_mut)] let mut $m = FzHashMap::with_hasher(s.to_vec(), Bh::<0>); $b }
        { let $n = "FzHashMap<10>"; #[allow(unused_mut)] let mut $m = FzHashMap::with_hasher(s.to_vec(), Bh::<10>); $b }
        { let $n = "FzOrderedMap"; #[allow(unused_mut)] let mut $m = FzOrderedMap::new(s.to_vec()); $b }
        { let $n = "FzScalarMap"; #[allow(unused_mut)] let mut $m = FzScalarMap::new(s.to_vec()); $b }
        if $crate::pa::span(s) <= 100_000 {
            let $n = "SparseScalarLookupMap"; #[allow(unused_mut)] let mut $m = SparseScalarLookupMap::new(s.to_vec()); $b
        }
        if let Ok(x) = DenseScalarLookupMap::new(s.to_vec()) {
            let $n = "DenseScalarLookupMap"; #[allow(unused_mut)] let mut $m = x; $b
        }
    }};
}

pub fn span(s: &[(u64, u32)]) -> u64 {
    match (s.iter().map(|x| x.0).min(), s.iter().map(|x| x.0).max()) {
        (Some(a), Some(b)) => b - a,
        _ => 0,
    }
}

fn boxes(ks: &[String]) -> Vec<(Box<str>, u32)> {
    ks.iter().enumerate().map(|(i, k)| (k.as_str().into(), i as u32)).collect()
}

pub fn sizes(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => r.below(4),
        1..=4 => r.range(3, 20),
        5..=7 => r.range(20, 70),
        8 => r.range(70, 140),
        _ => r.range(250, 262),
    }
}

/// Map equality and set equality checks are elsewhere; this decides lookups and contents for one hash map.
fn hash_case<CM: CollectionMagnitude>(name: &str, src: &Src, probes: &[u64], mode: u8) -> R {
    let n = model_ord(src).len();
    let r = HashMap::<u64, u32, CM, H>::with_hasher(src.clone(), H(mode));
    if n > CM::MAX_CAPACITY {
        ck!(r.is_err(), "{name}: {n} distinct entries accepted");
        return Ok(());
    }
    let mut m = at(name, r)?;
    at(name, lookups(&mut m, src, probes))?;
    at(name, contents(&m, src))
}

pub fn c01(cx: &mut Cx) {
    let g = "hash/core";
    for i in 0..cx.reps(1200, 20000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        let mode = r.below(u64::from(MODES)) as u8;
        let p = near(&src.iter().map(|e| e.0).collect::<Vec<_>>(), &mut r);
        cx.case(g, &(mode, src, p), n > 0, |(mode, src, p)| {
            hash_case::<SmallCollection>("HashMap<Small>", src, p, *mode)?;
            hash_case::<MediumCollection>("HashMap<Medium>", src, p, *mode)?;
            hash_case::<LargeCollection>("HashMap<Large>", src, p, *mode)
        });
    }
    let g = "hash/exhaustive";
    // every hash pattern over 3 codes for up to 5 distinct keys, looked up by every key and a stranger with every code
    #[derive(Clone, Debug, Hash, PartialEq, Eq)]
    struct T([u64; 7]);
    impl Hasher<u64> for T {
        fn hash_one(&self, v: &u64) -> u64 {
            self.0[(*v % 7) as usize]
        }
    }
    let codes = [0u64, 1, 7, 8, 0xff, u64::MAX];
    for n in 0..=4usize {
        for pat in 0..codes.len().pow(n as u32) {
            let mut t = [0u64; 7];
            let mut x = pat;
            for e in t.iter_mut().take(n) {
                *e = codes[x % codes.len()];
                x /= codes.len();
            }
            for (j, c) in [(5, 0u64), (6, u64::MAX)] {
                t[j] = c;
            }
            if cx.small && pat % 16 != 0 {
                continue;
            }
            cx.case(g, &(n, T(t)), n > 1, |(n, t)| {
                let src: Src = (0..*n as u64).map(|k| (k, k as u32)).collect();
                let mut m = HashMap::<u64, u32, SmallCollection, T>::with_hasher(src.clone(), t.clone())?;
                lookups(&mut m, &src, &[4, 5, 6, 7, 8, 9, 12, 13])?;
                contents(&m, &src)
            });
        }
    }
    let g = "hash/fz";
    for i in 0..cx.reps(400, 6000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        let p = near(&src.iter().map(|e| e.0).collect::<Vec<_>>(), &mut r);
        cx.case(g, &(src, p), n > 0, |(src, p)| {
            macro_rules! m { ($($k:literal)*) => { $( {
                let nm = concat!("FzHashMap<", $k, ">");
                let mut m = FzHashMap::with_hasher(src.clone(), Bh::<$k>);
                at(nm, lookups(&mut m, src, p))?;
                at(nm, contents(&m, src))?;
                let nm = concat!("FzHashSet<", $k, ">");
                let ks: Vec<u64> = src.iter().map(|e| e.0).collect();
                let s = FzHashSet::with_hasher(ks.clone(), Bh::<$k>);
                at(nm, lookups_set(&s, &ks, p))?;
            } )* } }
            m!(0 2 5 6 10 13);
            let mut m = FzHashMap::<u64, u32>::from_iter(src.iter().copied());
            at("FzHashMap", lookups(&mut m, src, p))?;
            at("FzHashMap", contents(&m, src))
        });
    }
    let g = "hash/borrowed";
    for i in 0..cx.reps(300, 4000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r).min(60);
        let ks = gen_strings(&mut r, n);
        let p = near_strings(&ks, &mut r);
        cx.case(g, &(ks, p), n > 0, |(ks, p)| {
            let src = tagged(ks);
            let mo: std::collections::BTreeMap<String, u32> = src.iter().cloned().collect();
            macro_rules! m { ($bh:expr) => { {
                let mut m = FzHashMap::<String, u32, _>::with_hasher(src.clone(), $bh);
                let s = FzHashSet::<String, _>::with_hasher(ks.clone(), $bh);
                for q in ks.iter().chain(p) {
                    let w = mo.get(q);
                    ck!(m.get(q.as_str()) == w, "get({q:?} as &str) = {:?}, expected {w:?}", m.get(q.as_str()));
                    ck!(m.get(&Ref(q)) == w, "get(Ref({q:?})) = {:?}, expected {w:?}", m.get(&Ref(q)));
                    ck!(m.get_key_value(q.as_str()).map(|e| e.1) == w, "get_key_value({q:?} as &str)");
                    ck!(m.contains_key(q.as_str()) == w.is_some(), "contains_key({q:?} as &str)");
                    ck!(m.get_mut(q.as_str()).as_deref() == w, "get_mut({q:?} as &str)");
                    ck!(s.contains(q.as_str()) == w.is_some(), "set contains({q:?} as &str)");
                    ck!(s.get(q.as_str()).is_some() == w.is_some(), "set get({q:?} as &str)");
                }
                lookups(&mut m, &src, p)?;
            } } }
            m!(Bh::<6>);
            m!(Bh::<4>);
            m!(DefaultBuildHasher::default());
            Ok(())
        });
    }
    let g = "hash/large";
    let big: &[u64] = if cx.small { &[] } else if cx.thorough { &[5000, 65534, 65535, 65536, 70000] } else { &[3000, 65535, 65536] };
    for &n in big {
        for mode in [2u8, 6, 9] {
            if !cx.thorough && n > 5000 && mode != 6 {
                continue;
            }
            cx.case(g, &(n, mode), true, |&(n, mode)| {
                let src: Src = (0..n).map(|k| (k * 7, k as u32)).collect();
                let miss: Vec<u64> = (0..n.min(3000)).map(|k| k * 7 + 3).collect();
                macro_rules! one { ($cm:ty, $nm:literal) => { {
                    let r = HashMap::<u64, u32, $cm, H>::with_hasher(src.clone(), H(mode));
                    ck!(r.is_ok() == (n as usize <= <$cm>::MAX_CAPACITY), "{} with {n} entries: ok={}", $nm, r.is_ok());
                    if let Ok(m) = r {
                        ck!(m.len() == n as usize, "{} len {}", $nm, m.len());
                        for (k, v) in &src { ck!(m.get(k) == Some(v), "{} get({k}) = {:?}", $nm, m.get(k)); }
                        for k in &miss { ck!(m.get(k).is_none(), "{} get({k}) = {:?}", $nm, m.get(k)); }
                    }
                } } }
                one!(MediumCollection, "HashMap<Medium>");
                one!(LargeCollection, "HashMap<Large>");
                Ok(())
            });
        }
    }
}

/// All arrangements of duplicates for all kinds.
fn dups(src: &[(Dk, u32)], mode: u8) -> R {
    let want = model(src);
    fn chk<M: MapP<Dk, u32>>(n: &str, mut m: M, src: &[(Dk, u32)], want: &[(Dk, u32)]) -> R {
        at(n, contents(&m, src))?;
        for (k, v) in want {
            at(n, query_map(&mut m, Some(v), k, false))?;
        }
        let mut got = m.items_();
        got.sort_by_key(|e| e.0.id);
        ck!(got.windows(2).all(|w| w[0].0.id != w[1].0.id), "{n}: a key occurs twice in {got:?}");
        Ok(())
    }
    chk("ScanMap", ScanMap::new(src.to_vec()), src, &want)?;
    chk("EytzingerSearchMap", EytzingerSearchMap::new(src.to_vec()), src, &want)?;
    chk("FzOrderedMap", FzOrderedMap::new(src.to_vec()), src, &want)?;
    chk("FzOrderedMap::from_iter", FzOrderedMap::from_iter(src.iter().cloned()), src, &want)?;
    chk("FzHashMap", FzHashMap::<_, _>::new(src.to_vec()), src, &want)?;
    chk("FzHashMap<0>", FzHashMap::with_hasher(src.to_vec(), Bh::<0>), src, &want)?;
    chk("FzHashMap<4>", FzHashMap::with_hasher(src.to_vec(), Bh::<4>), src, &want)?;
    chk("FzHashMap::from_iter", FzHashMap::<_, _, Bh<6>>::from_iter(src.iter().cloned()), src, &want)?;
    chk("HashMap<Small>", HashMap::<Dk, u32, SmallCollection, H>::with_hasher(src.to_vec(), H(mode))?, src, &want)?;
    chk("HashMap<Large>", HashMap::<Dk, u32, LargeCollection, H>::with_hasher(src.to_vec(), H(mode))?, src, &want)?;
    let ks: Vec<Dk> = src.iter().map(|e| e.0.clone()).collect();
    at("FzHashSet", lookups_set(&FzHashSet::<_>::new(ks.clone()), &ks, &[]))?;
    at("FzHashSet<0>", lookups_set(&FzHashSet::with_hasher(ks.clone(), Bh::<0>), &ks, &[]))?;
    at("FzHashSet::from_iter", lookups_set(&FzHashSet::<_, Bh<6>>::from_iter(ks.clone()), &ks, &[]))?;
    at("FzOrderedSet", lookups_set(&FzOrderedSet::new(ks.clone()), &ks, &[]))?;
    at("FzOrderedSet::from_iter", lookups_set(&FzOrderedSet::from_iter(ks.clone()), &ks, &[]))?;
    // scalar and string keys
    let ss: Vec<(u8, u32)> = src.iter().map(|e| (e.0.id as u8, e.1)).collect();
    let sm = FzScalarMap::new(ss.clone());
    at("FzScalarMap", contents(&sm, &ss))?;
    at("FzScalarMap", lookups(&mut sm.clone(), &ss, &[]))?;
    at("FzScalarMap::from_iter", contents(&FzScalarMap::from_iter(ss.iter().copied()), &ss))?;
    at("SparseScalarLookupMap", contents(&SparseScalarLookupMap::new(ss.clone()), &ss))?;
    if let Ok(m) = DenseScalarLookupMap::new(ss.clone()) {
        at("DenseScalarLookupMap", contents(&m, &ss))?;
    }
    let sk: Vec<u8> = ss.iter().map(|e| e.0).collect();
    at("FzScalarSet", lookups_set(&FzScalarSet::new(sk.clone()), &sk, &[]))?;
    let st: Vec<(Box<str>, u32)> = src.iter().map(|e| (format!("k{}", e.0.id).into_boxed_str(), e.1)).collect();
    at("FzStringMap", contents(&FzStringMap::<Box<str>, u32>::new(st.clone()), &st))?;
    at("FzStringMap", lookups(&mut FzStringMap::<Box<str>, u32>::new(st.clone()), &st, &[]))?;
    at("FzStringMap::from_iter", contents(&FzStringMap::<Box<str>, u32, Bh<6>>::from_iter(st.iter().cloned()), &st))?;
    let stk: Vec<Box<str>> = st.iter().map(|e| e.0.clone()).collect();
    at("FzStringSet", lookups_set(&FzStringSet::<Box<str>>::new(stk.clone()), &stk, &[]))?;
    Ok(())
}

fn dk(v: &[u32]) -> Vec<(Dk, u32)> {
    v.iter().enumerate().map(|(i, k)| (Dk { id: *k, tag: i as u32 }, i as u32)).collect()
}

pub fn c02(cx: &mut Cx) {
    let g = "dup/exhaustive";
    // every list over 3 keys up to length 6
    for len in 0..=6u32 {
        for pat in 0..3u32.pow(len) {
            if (cx.small && pat % 32 != 0) || (!cx.thorough && len == 6 && pat % 3 != 1) {
                continue;
            }
            let mut x = pat;
            let v: Vec<u32> = (0..len).map(|_| { let d = x % 3; x /= 3; d }).collect();
            cx.case(g, &v, len > 1, |v| dups(&dk(v), 2));
        }
    }
    let g = "dup/random";
    for i in 0..cx.reps(700, 12000) {
        let mut r = cx.rng(g, i);
        let n = r.range(2, 60);
        let u = r.range(1, n);
        let off = r.below(100) as u32;
        let st = r.range(1, 3) as u32;
        let mut v: Vec<u32> = (0..n).map(|_| off + st * r.below(u) as u32).collect();
        if r.below(3) == 0 {
            v.sort_unstable();
        }
        if r.below(5) == 0 {
            v.sort_unstable();
            v.reverse();
        }
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, v), true, |(mode, v)| dups(&dk(v), *mode));
    }
    let g = "dup/long";
    for i in 0..cx.reps(6, 60) {
        let mut r = cx.rng(g, i);
        let n = r.range(300, 1200);
        let u = r.range(100, 240);
        let v: Vec<u32> = (0..n).map(|_| r.below(u) as u32).collect();
        cx.case(g, &v, true, |v| dups(&dk(v), 6));
    }
}

pub fn c03(cx: &mut Cx) {
    let g = "ordered/every-size";
    let top = if cx.small { 40 } else if cx.thorough { 1200 } else { 300 };
    for n in 0..=top {
        cx.case(g, &n, n > 0, |&n| {
            let src: Vec<(u64, u32)> = (0..n).map(|k| (2 * k + 1, k as u32)).collect();
            let probes: Vec<u64> = (0..=n).map(|k| 2 * k).chain([u64::MAX]).collect();
            let mut m = EytzingerSearchMap::new(src.clone());
            at("EytzingerSearchMap", lookups(&mut m, &src, &probes))?;
            at("EytzingerSearchMap", contents(&m, &src))?;
            let mut m = FzOrderedMap::new(src.clone());
            at("FzOrderedMap", lookups(&mut m, &src, &probes))?;
            at("FzOrderedMap", contents(&m, &src))?;
            let ks: Vec<u64> = src.iter().rev().map(|e| e.0).collect();
            at("FzOrderedSet", lookups_set(&FzOrderedSet::new(ks.clone()), &ks, &probes))
        });
    }
    let g = "ordered/big";
    for &n in if cx.small { &[511u64, 512][..] } else { &[1023, 1024, 1025, 4095, 4096, 65535, 65536, 100_001][..] } {
        cx.case(g, &n, true, |&n| {
            let src: Vec<(u64, u64)> = (0..n).map(|k| (3 * k + 1, k)).collect();
            let m = FzOrderedMap::new(src.clone());
            ck!(m.len() == n as usize, "len");
            for (k, v) in &src {
                ck!(m.get(k) == Some(v), "get({k}) = {:?}, expected {v}", m.get(k));
                ck!(m.get(&(k + 1)).is_none(), "get({}) found something", k + 1);
            }
            Ok(())
        });
    }
    let g = "ordered/random";
    for i in 0..cx.reps(500, 8000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        let p = near(&src.iter().map(|e| e.0).collect::<Vec<_>>(), &mut r);
        cx.case(g, &(src, p), n > 0, |(src, p)| {
            at("EytzingerSearchMap", lookups(&mut EytzingerSearchMap::new(src.clone()), src, p))?;
            at("FzOrderedMap", lookups(&mut FzOrderedMap::new(src.clone()), src, p))?;
            let ks: Vec<u64> = src.iter().map(|e| e.0).collect();
            at("FzOrderedSet", lookups_set(&FzOrderedSet::new(ks.clone()), &ks, p))
        });
    }
    let g = "ordered/strings";
    for i in 0..cx.reps(200, 3000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r).min(60);
        let ks = gen_strings(&mut r, n);
        let p = near_strings(&ks, &mut r);
        cx.case(g, &(ks, p), n > 0, |(ks, p)| {
            let src = tagged(ks);
            let mo: std::collections::BTreeMap<String, u32> = src.iter().cloned().collect();
            let m = FzOrderedMap::new(src.clone());
            let s = FzOrderedSet::new(ks.clone());
            for q in ks.iter().chain(p) {
                let w = mo.get(q);
                ck!(m.get(q.as_str()) == w, "get({q:?} as &str) = {:?}, expected {w:?}", m.get(q.as_str()));
                ck!(m.get(&Ref(q)) == w, "get(Ref({q:?})) = {:?}, expected {w:?}", m.get(&Ref(q)));
                ck!(s.contains(q.as_str()) == w.is_some(), "set contains({q:?})");
            }
            lookups(&mut FzOrderedMap::new(src.clone()), &src, p)
        });
    }
}

fn scalars<T: Sc>(cx: &mut Cx, g: &str, q: u64, t: u64) {
    let g = format!("{g}/{}", T::NAME);
    for i in 0..cx.reps(q, t) {
        let mut r = cx.rng(&g, i);
        let n = if i < 4 { i } else { match r.below(8) { 0 => r.below(4), 1..=4 => r.range(2, 20), 5 | 6 => r.range(20, 120), _ => r.range(120, 280) } };
        let ks = gen_scalars::<T>(&mut r, n);
        let p = near_scalars(&ks, &mut r);
        cx.case(&g, &(ks, p), n > 0, |(ks, p)| scalar_case(ks, p));
    }
    // the extremes, alone and with others
    for mask in 0u32..32 {
        let all: Vec<i128> = vec![T::LO, T::LO + 1, T::HI - 1, T::HI, 1];
        let ks: Vec<T> = all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).filter_map(|(_, v)| T::mk(*v)).collect();
        let mut r = cx.rng(&g, 1 << 40 | u64::from(mask));
        let p = near_scalars(&ks, &mut r);
        cx.case(&g, &(ks, p), mask > 0, |(ks, p)| scalar_case(ks, p));
    }
}

fn scalar_case<T: Sc>(ks: &[T], p: &[T]) -> R {
    let src = tagged(ks);
    let mut m = FzScalarMap::new(src.clone());
    at("FzScalarMap", lookups(&mut m, &src, p))?;
    at("FzScalarMap", contents(&m, &src))?;
    let s = FzScalarSet::new(ks.to_vec());
    at("FzScalarSet", lookups_set(&s, ks, p))?;
    let mut vals: Vec<i128> = ks.iter().map(|k| k.val()).collect();
    vals.sort_unstable();
    vals.dedup();
    let width = if vals.is_empty() { 0 } else { vals[vals.len() - 1] - vals[0] + 1 };
    let contiguous = width == vals.len() as i128;
    let d = DenseScalarLookupMap::new(src.clone());
    ck!(d.is_ok() == contiguous, "DenseScalarLookupMap::new ok={} but contiguous={contiguous}", d.is_ok());
    if let Ok(mut m) = d {
        at("DenseScalarLookupMap", lookups(&mut m, &src, p))?;
        at("DenseScalarLookupMap", contents(&m, &src))?;
    }
    if width < 200_000 {
        let mut m = SparseScalarLookupMap::new(src.clone());
        at("SparseScalarLookupMap", lookups(&mut m, &src, p))?;
        at("SparseScalarLookupMap", contents(&m, &src))?;
    }
    let r = HashMap::<T, u32, LargeCollection, hashers::ScalarHasher>::with_hasher(src.clone(), hashers::ScalarHasher);
    let mut m = at("HashMap<ScalarHasher>", r)?;
    at("HashMap<ScalarHasher>", lookups(&mut m, &src, p))
}

pub fn c04(cx: &mut Cx) {
    each_scalar!(scalars(cx, "scalar", 60, 900));
    scalars::<En>(cx, "scalar", 60, 900);
    let g = "scalar/u8-subsets";
    // every subset of a window, at both ends and in the middle of the type
    for base in [0i128, 1, 100, 247] {
        for mask in 0u32..512 {
            if cx.small && mask % 16 != 3 { continue; }
            cx.case(g, &(base, mask), mask != 0, |&(base, mask)| {
                let ks: Vec<u8> = (0..9).filter(|i| mask >> i & 1 == 1).filter_map(|i| u8::mk(base + i)).collect();
                let all: Vec<u8> = (0..=255).collect();
                scalar_case(&ks, &all)
            });
        }
    }
    let g = "scalar/i8-ranges";
    for lo in (-128i32..=127).step_by(if cx.thorough { 1 } else { 9 }) {
        for len in [1, 2, 127, 128, 129, 200, 255, 256] {
            if cx.small && len > 127 { continue; }
            cx.case(g, &(lo, len), true, |&(lo, len)| {
                let ks: Vec<i8> = (lo..lo + len).filter_map(|x| i8::try_from(x).ok()).collect();
                let all: Vec<i8> = (-128..=127).collect();
                scalar_case(&ks, &all)
            });
        }
    }
}

pub fn strings_case(ks: &[String], p: &[String]) -> R {
    let src = boxes(ks);
    let pb: Vec<Box<str>> = p.iter().map(|s| s.as_str().into()).collect();
    macro_rules! f { ($nm:literal, $bh:expr) => { {
        let mut m = FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), $bh);
        at($nm, lookups(&mut m, &src, &pb))?;
        at($nm, contents(&m, &src))?;
        let kb: Vec<Box<str>> = src.iter().map(|e| e.0.clone()).collect();
        let s = FzStringSet::<Box<str>, _>::with_hasher(kb.clone(), $bh);
        at($nm, lookups_set(&s, &kb, &pb))?;
    } } }
    f!("FzStringMap<6>", Bh::<6>);
    f!("FzStringMap<10>", Bh::<10>);
    f!("FzStringMap<0>", Bh::<0>);
    f!("FzStringMap", DefaultBuildHasher::default());
    Ok(())
}

pub fn c05(cx: &mut Cx) {
    let g = "string/fz";
    for i in 0..cx.reps(700, 12000) {
        let mut r = cx.rng(g, i);
        let n = if i < 5 { i } else { sizes(&mut r).min(130) };
        let ks = gen_strings(&mut r, n);
        let p = near_strings(&ks, &mut r);
        cx.case(g, &(ks, p), n > 0, |(ks, p)| strings_case(ks, p));
    }
    let g = "string/exhaustive";
    // all sets of up to 3 of the strings of length <= 2 over {a, b, é}
    let mut uni: Vec<String> = vec![String::new()];
    for a in ["a", "b", "é"] {
        uni.push(a.into());
        for b in ["a", "b", "é"] {
            uni.push(format!("{a}{b}"));
        }
    }
    let n = uni.len();
    for a in 0..n {
        for b in a..n {
            for c in b..n {
                if cx.small && (a + b + c) % 11 != 0 { continue; }
                cx.case(g, &(a, b, c), true, |&(a, b, c)| strings_case(&[uni[c].clone(), uni[a].clone(), uni[b].clone()], &uni));
            }
        }
    }
    let g = "string/range-hashers";
    for i in 0..cx.reps(600, 9000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r).min(60);
        let ks = gen_strings(&mut r, n);
        let p = near_strings(&ks, &mut r);
        let a = r.below(8) as usize;
        let b = a + r.below(5) as usize;
        cx.case(g, &(a, b, ks, p), n > 0, |(a, b, ks, p)| {
            let src = boxes(ks);
            let pb: Vec<Box<str>> = p.iter().map(|s| s.as_str().into()).collect();
            macro_rules! f { ($nm:literal, $h:ty, $e:expr) => { {
                let mut m = at($nm, HashMap::<Box<str>, u32, LargeCollection, $h>::with_hasher(src.clone(), $e))?;
                at($nm, lookups(&mut m, &src, &pb))?;
            } } }
            f!("Left", LeftRangeHasher<Bh<6>>, LeftRangeHasher::new(Bh::<6>, *a..*b));
            f!("Right", RightRangeHasher<Bh<6>>, RightRangeHasher::new(Bh::<6>, *a..*b));
            f!("Length", LengthHasher, LengthHasher);
            f!("Bridge", BridgeHasher<Bh<6>>, BridgeHasher::new(Bh::<6>));
            // a key and its borrowed forms hash alike
            let l = LeftRangeHasher::new(Bh::<6>, *a..*b);
            let rr = RightRangeHasher::new(Bh::<6>, *a..*b);
            for k in ks.iter().chain(p).take(60) {
                let bx: Box<str> = k.as_str().into();
                ck!(l.hash_one(k.as_str()) == l.hash_one(&bx) && l.hash_one(k) == l.hash_one(&bx), "LeftRangeHasher differs between forms of {k:?}");
                ck!(rr.hash_one(k.as_str()) == rr.hash_one(&bx) && rr.hash_one(k) == rr.hash_one(&bx), "RightRangeHasher differs between forms of {k:?}");
                ck!(LengthHasher.hash_one(k.as_str()) == LengthHasher.hash_one(&bx), "LengthHasher differs between forms of {k:?}");
            }
            Ok(())
        });
    }
    let g = "string/many";
    for &n in if cx.small { &[300u64][..] } else { &[260, 1000, 3000][..] } {
        for style in 0..4u64 {
            cx.case(g, &(n, style), true, |&(n, style)| {
                let ks: Vec<String> = (0..n).map(|i| match style {
                    0 => format!("key{i:05}"), 1 => format!("{i:05}key"), 2 => format!("{:x}", Rng(i).next()), _ => format!("common{}tail", i),
                }).collect();
                let src = boxes(&ks);
                let m = FzStringMap::<Box<str>, u32>::new(src.clone());
                for (k, v) in &src {
                    ck!(m.get(k) == Some(v), "get({k:?}) = {:?}", m.get(k));
                    ck!(m.get(format!("{k}x")).is_none() && m.get(&k[1..]).is_none_or(|_| ks.iter().any(|x| x == &k[1..])), "a near miss of {k:?} is found");
                }
                ck!(m.len() == n as usize, "len");
                Ok(())
            });
        }
    }
}

/// C06 reuses every lookup explorer: each runs with the standard library's unchecked-access checks on.
pub fn c06(cx: &mut Cx) {
    c01(cx);
    c03(cx);
    c04(cx);
    c05(cx);
    c07(cx);
    c14(cx);
}

pub fn history<K: Ord + Clone + Debug, M: MapP<K, u32>>(n: &str, mut m: M, src: &[(K, u32)], absent: &[K], ops: &[(u8, u32)]) -> R {
    let mut mo: std::collections::BTreeMap<K, u32> = src.iter().cloned().collect();
    let keys: Vec<K> = mo.keys().cloned().collect();
    let len = keys.len();
    let order: Vec<K> = m.items_().into_iter().map(|e| e.0).collect();
    for (step, &(op, x)) in ops.iter().enumerate() {
        let k = if !keys.is_empty() { Some(&keys[x as usize % len]) } else { None };
        match op % 8 {
            0 => if let Some(k) = k {
                let Some(v) = m.get_mut_(k) else { return Err(format!("{n}: step {step}: get_mut({k:?}) is None")) };
                *v = x;
                mo.insert(k.clone(), x);
            },
            1 => if let Some(k) = k {
                let Some(v) = m.tget_mut_(k) else { return Err(format!("{n}: step {step}: MapQuery::get_mut({k:?}) is None")) };
                *v = v.wrapping_mul(3).wrapping_add(x);
                let o = mo[k];
                mo.insert(k.clone(), o.wrapping_mul(3).wrapping_add(x));
            },
            2 => if !absent.is_empty() {
                let k = &absent[x as usize % absent.len()];
                if !mo.contains_key(k) {
                    ck!(m.get_mut_(k).is_none(), "{n}: step {step}: get_mut of absent {k:?}");
                    ck!(m.tget_mut_(k).is_none(), "{n}: step {step}: MapQuery::get_mut of absent {k:?}");
                }
            },
            3 => {
                let how = (x % 5) as u8;
                m.set_all_(how, &mut |_, v| v.wrapping_add(x));
                for v in mo.values_mut() { *v = v.wrapping_add(x); }
            }
            4 if len >= 2 => {
                let (a, b) = (&keys[x as usize % len], &keys[(x as usize + 1) % len]);
                let [p, q] = m.dj_([a, b]);
                let (Some(p), Some(q)) = (p, q) else { return Err(format!("{n}: step {step}: get_disjoint_mut misses {a:?} or {b:?}")) };
                *p = x;
                *q = x.wrapping_add(1);
                mo.insert(a.clone(), x);
                mo.insert(b.clone(), x.wrapping_add(1));
            }
            5 if len >= 3 => {
                let (a, b, c) = (&keys[x as usize % len], &keys[(x as usize + 1) % len], &keys[(x as usize + 2) % len]);
                let [p, q, s] = unsafe { m.dju_([c, a, b]) };
                let (Some(p), Some(q), Some(s)) = (p, q, s) else { return Err(format!("{n}: step {step}: get_disjoint_unchecked_mut misses a key")) };
                std::mem::swap(p, q);
                std::mem::swap(q, s);
                let (vc, va, vb) = (mo[c], mo[a], mo[b]);
                mo.insert(c.clone(), va);
                mo.insert(a.clone(), vb);
                mo.insert(b.clone(), vc);
            }
            _ => if let Some(k) = k {
                if let Some(v) = m.get_mut_(k) { *v = !*v; }
                let o = mo[k];
                mo.insert(k.clone(), !o);
            },
        }
        for (k, v) in &mo {
            ck!(m.get_(k) == Some(v), "{n}: after step {step} {:?}, get({k:?}) = {:?}, expected {v}", (op, x), m.get_(k));
        }
        ck!(m.len_() == len, "{n}: length changed to {}", m.len_());
        let it = m.items_();
        ck!(it.iter().map(|e| &e.0).eq(order.iter()), "{n}: keys changed after step {step}");
        ck!(it.iter().all(|(k, v)| mo.get(k) == Some(v)), "{n}: iteration disagrees after step {step}: {it:?}");
    }
    Ok(())
}

pub fn c07(cx: &mut Cx) {
    let g = "mut/u64";
    for i in 0..cx.reps(250, 4000) {
        let mut r = cx.rng(g, i);
        let n = if i < 8 { i } else { r.range(1, 40) };
        let src = tagged(&gen_keys(&mut r, n));
        let ab = near(&src.iter().map(|e| e.0).collect::<Vec<_>>(), &mut r);
        let ops: Vec<(u8, u32)> = (0..r.range(1, 14)).map(|_| (r.below(256) as u8, r.next() as u32)).collect();
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src, ab, ops), n > 0, |(mode, src, ab, ops)| {
            each_u64_map!(src, *mode, |nm, m| {
                history(nm, m.clone(), src, ab, ops)?;
                // every single key: only its value changes
                let before = m.items_();
                for (j, (k, _)) in before.iter().enumerate().take(24) {
                    let mut c = m.clone();
                    *c.get_mut_(k).ok_or_else(|| format!("{nm}: get_mut({k})"))? = 0xdead_beef;
                    let after = c.items_();
                    for (a, (b, af)) in before.iter().zip(&after).enumerate() {
                        let w = if a == j { (b.0, 0xdead_beef) } else { *b };
                        ck!(*af == w, "{nm}: writing key {k} turned entry {b:?} into {af:?}");
                    }
                }
            });
            Ok(())
        });
    }
    let g = "mut/strings";
    for i in 0..cx.reps(200, 3000) {
        let mut r = cx.rng(g, i);
        let n = r.range(0, 40);
        let ks = gen_strings(&mut r, n);
        let ab: Vec<Box<str>> = near_strings(&ks, &mut r).iter().map(|s| s.as_str().into()).collect();
        let ops: Vec<(u8, u32)> = (0..r.range(1, 14)).map(|_| (r.below(256) as u8, r.next() as u32)).collect();
        cx.case(g, &(ks, ab, ops), n > 0, |(ks, ab, ops)| {
            let src = boxes(ks);
            history("FzStringMap<6>", FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<6>), &src, ab, ops)?;
            history("FzStringMap<4>", FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<4>), &src, ab, ops)
        });
    }
    fn sc<T: Sc>(cx: &mut Cx) {
        let g = format!("mut/{}", T::NAME);
        for i in 0..cx.reps(30, 500) {
            let mut r = cx.rng(&g, i);
            let n = r.range(0, 60);
            let ks = gen_scalars::<T>(&mut r, n);
            let ab = near_scalars(&ks, &mut r);
            let ops: Vec<(u8, u32)> = (0..r.range(1, 14)).map(|_| (r.below(256) as u8, r.next() as u32)).collect();
            cx.case(&g, &(ks, ab, ops), n > 0, |(ks, ab, ops)| {
                let src = tagged(ks);
                history("FzScalarMap", FzScalarMap::new(src.clone()), &src, ab, ops)
            });
        }
    }
    each_scalar!(sc(cx));
}

pub fn c13(cx: &mut Cx) {
    fn all<T: Sc>(cx: &mut Cx) {
        let g = format!("index/{}", T::NAME);
        if T::HI - T::LO < 70_000 {
            cx.case(&g, &"exhaustive", true, |_| {
                let mut last: Option<(T, usize)> = None;
                let mut x = T::LO;
                while x <= T::HI {
                    if let Some(k) = T::mk(x) {
                        let i = k.index();
                        if let Some((p, j)) = last {
                            ck!(j < i, "{p:?} has index {j} and {k:?} has index {i}");
                        }
                        last = Some((k, i));
                    }
                    x += 1;
                }
                Ok(())
            });
        }
        for i in 0..cx.reps(40, 400) {
            let mut r = cx.rng(&g, i);
            let mut v: Vec<i128> = vec![T::LO, T::LO + 1, T::HI, T::HI - 1, 0, 1, -1, 2, -2, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 65535, 65536, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) - 1, 1 << 32, -(1i128 << 32), 1 << 62, -(1i128 << 62)];
            for _ in 0..60 {
                let a = T::LO + i128::from(r.next()) % (T::HI - T::LO + 1);
                v.extend([a, a + 1]);
            }
            v.sort_unstable();
            v.dedup();
            let ks: Vec<T> = v.into_iter().filter(|x| *x >= T::LO && *x <= T::HI).filter_map(T::mk).collect();
            cx.case(&g, &ks, true, |ks| {
                for w in ks.windows(2) {
                    let (a, b) = (w[0].index(), w[1].index());
                    ck!(a < b, "{:?} has index {a} and {:?} has index {b}", w[0], w[1]);
                }
                for k in ks { ck!(k.index() == k.index(), "index of {k:?} changes"); }
                Ok(())
            });
        }
    }
    each_scalar!(all(cx));
    all::<En>(cx);
    cx.case("index/enums", &0, true, |_| {
        for (i, e) in En::ALL.iter().enumerate() {
            for (j, f) in En::ALL.iter().enumerate() {
                ck!((e.index() == f.index()) == (e == f), "{e:?}/{f:?}: indices {} {}", e.index(), f.index());
                ck!((e.index() < f.index()) == (i < j), "{e:?}/{f:?}: indices {} {}", e.index(), f.index());
            }
        }
        for w in Big::ALL.windows(2) { ck!(w[0].index() < w[1].index(), "{:?} has index {} and {:?} has index {}", w[0], w[0].index(), w[1], w[1].index()); }
        ck!(One::A.index() == One::A.index(), "index");
        let er = [Er::A, Er::B, Er::C, Er::D];
        for w in er.windows(2) { ck!(w[0].index() < w[1].index(), "repr enum {w:?}"); }
        Ok(())
    });
}

pub fn disjoint<K: Ord + Clone + Debug, M: MapP<K, u32>>(n: &str, m: &mut M, keys: &[K]) -> R {
    fn one<K: Ord + Clone + Debug, M: MapP<K, u32>, const N: usize>(n: &str, m: &mut M, ks: [&K; N]) -> R {
        let mut s: Vec<&K> = ks.to_vec();
        s.sort();
        let dup = s.windows(2).any(|w| w[0] == w[1]);
        let want: Vec<Option<(u32, usize)>> = ks.iter().map(|k| m.get_(k).map(|r| (*r, r as *const u32 as usize))).collect();
        if dup {
            ck!(panics(|| { let _ = m.dj_(ks); }), "{n}: get_disjoint_mut({ks:?}) does not panic");
            ck!(panics(|| { let _ = m.tdj_(ks); }), "{n}: MapExtras::get_disjoint_mut({ks:?}) does not panic");
            return Ok(());
        }
        for form in 0..3 {
            let got = match form { 0 => m.dj_(ks), 1 => m.tdj_(ks), _ => unsafe { m.dju_(ks) } };
            let g: Vec<Option<(u32, usize)>> = got.into_iter().map(|o| o.map(|r| (*r, r as *mut u32 as usize))).collect();
            ck!(g == want, "{n}: form {form}: get_disjoint_mut({ks:?}) = {g:?}, single lookups give {want:?}");
            let mut a: Vec<usize> = g.iter().flatten().map(|x| x.1).collect();
            a.sort_unstable();
            ck!(a.windows(2).all(|w| w[0] != w[1]), "{n}: aliased references for {ks:?}");
        }
        Ok(())
    }
    let k = keys.len();
    one::<K, M, 0>(n, m, [])?;
    for a in 0..k {
        one(n, m, [&keys[a]])?;
        for b in 0..k {
            one(n, m, [&keys[a], &keys[b]])?;
            for c in 0..k {
                one(n, m, [&keys[a], &keys[b], &keys[c]])?;
                if k <= 5 {
                    for d in 0..k {
                        one(n, m, [&keys[a], &keys[b], &keys[c], &keys[d]])?;
                    }
                }
            }
        }
    }
    if k >= 5 {
        for p in 0..5 {
            for q in 0..5 {
                let mut ix = [0, 1, 2, 3, 4];
                ix[p] = ix[q];
                one(n, m, ix.map(|i| &keys[i]))?;
            }
        }
    }
    if k >= 4 {
        // wide requests: a repeated pair at every two positions of ten
        let mut w: Vec<&K> = keys.iter().collect();
        if w.len() >= 10 {
            w.truncate(10);
            for p in 0..10 {
                for q in 0..10 {
                    let mut ix: [usize; 10] = std::array::from_fn(|i| i);
                    ix[p] = ix[q];
                    one(n, m, ix.map(|i| w[i]))?;
                }
            }
        }
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) {
    let g = "disjoint/u64";
    for i in 0..cx.reps(60, 900) {
        let mut r = cx.rng(g, i);
        let n = if i < 6 { i } else { r.range(2, 24) };
        let src = tagged(&gen_keys(&mut r, n));
        let mut ks: Vec<u64> = src.iter().map(|e| e.0).collect();
        r.shuffle(&mut ks);
        let wide = r.below(3) == 0;
        ks.truncate(if wide { 9 } else { 3 });
        let nr = near(&ks, &mut r);
        ks.extend([*r.pick(&nr), *r.pick(&nr)]);
        ks.sort_unstable();
        ks.dedup();
        r.shuffle(&mut ks);
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src, ks), n > 0, |(mode, src, ks)| {
            each_u64_map!(src, *mode, |nm, m| { disjoint(nm, &mut m, ks)?; });
            Ok(())
        });
    }
    let g = "disjoint/strings";
    for i in 0..cx.reps(60, 900) {
        let mut r = cx.rng(g, i);
        let n = r.range(1, 20);
        let ks = gen_strings(&mut r, n);
        let mut q: Vec<Box<str>> = ks.iter().take(4).map(|s| s.as_str().into()).collect();
        q.push("no such key".into());
        q.sort();
        q.dedup();
        cx.case(g, &(ks, q), n > 0, |(ks, q)| {
            let mut m = FzStringMap::<Box<str>, u32, _>::with_hasher(boxes(ks), Bh::<6>);
            disjoint("FzStringMap", &mut m, q)
        });
    }
    let g = "disjoint/btree";
    cx.case(g, &0, true, |_| {
        let mut m: std::collections::BTreeMap<u64, u32> = (0..5).map(|k| (k, k as u32)).collect();
        for a in 0..7u64 { for b in 0..7u64 { for c in 0..7u64 {
            let dup = a == b || b == c || a == c;
            if dup {
                ck!(panics(|| { let _ = MapExtras::get_disjoint_mut(&mut m, [&a, &b, &c]); }), "BTreeMap: {:?} does not panic", (a, b, c));
            } else {
                let got = MapExtras::get_disjoint_mut(&mut m, [&a, &b, &c]).map(|o| o.map(|x| *x));
                let w = [a, b, c].map(|k| if k < 5 { Some(k as u32) } else { None });
                ck!(got == w, "BTreeMap: {:?} gives {got:?}", (a, b, c));
            }
        } } }
        Ok(())
    });
}

pub fn c15(cx: &mut Cx) {
    let g = "limits/hash";
    for n in (0u64..6).chain(250..262).chain([400, 511, 512]) {
        for dup in [0u64, 1, 40] {
            for mode in [2u8, 6, 0] {
                cx.case(g, &(n, dup, mode), true, |&(n, dup, mode)| {
                    let mut src: Src = (0..n).map(|k| (k * 3, k as u32)).collect();
                    for d in 0..dup.min(n) {
                        src.push((d * 3, 1000 + d as u32));
                    }
                    let p: Vec<u64> = (0..n).map(|k| k * 3 + 1).collect();
                    hash_case::<SmallCollection>("HashMap<Small>", &src, &p, mode)?;
                    hash_case::<MediumCollection>("HashMap<Medium>", &src, &p, mode)?;
                    hash_case::<LargeCollection>("HashMap<Large>", &src, &p, mode)
                });
            }
        }
    }
    if !cx.small {
        let g = "limits/medium";
        for n in [65534u64, 65535, 65536, 65600] {
            for extra in [0u64, 3] {
                cx.case(g, &(n, extra), true, |&(n, extra)| {
                    let src: Src = (0..n).map(|k| (k, k as u32)).chain((0..extra).map(|k| (k, 77))).collect();
                    let r = HashMap::<u64, u32, MediumCollection, H>::with_hasher(src.clone(), H(6));
                    ck!(r.is_ok() == (n <= 65535), "HashMap<Medium> of {n} distinct entries: ok={}", r.is_ok());
                    if let Ok(m) = r {
                        ck!(m.len() == n as usize, "len {}", m.len());
                        for k in 0..n {
                            let w = if k < extra { 77 } else { k as u32 };
                            ck!(m.get(&k) == Some(&w), "get({k}) = {:?}", m.get(&k));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    let g = "limits/dense";
    for i in 0..cx.reps(1500, 20000) {
        let mut r = cx.rng(g, i);
        let n = r.range(1, 40);
        let a = r.range(0, u64::MAX - 100);
        let base = *r.pick(&[0u64, 1, 1000, u64::MAX - 60, (1 << 63) - 20, a]);
        let mut ks: Vec<u64> = (0..n).map(|k| base + k).collect();
        match r.below(5) {
            0 => { let j = r.below(n) as usize; ks.remove(j); }
            1 => ks.push(base + n + 1),
            2 => ks.push(ks[0]),
            3 => { let d = r.below(4); ks.push((base + n).wrapping_add(d)); ks.push(base); }
            _ => {}
        }
        r.shuffle(&mut ks);
        cx.case(g, &ks, true, |ks| scalar_case(ks, &[]));
    }
    each_scalar!(scalars(cx, "limits", 12, 200));
    let g = "limits/every-construction";
    for i in 0..cx.reps(300, 4000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src), n > 0, |(mode, src)| {
            each_u64_map!(src, *mode, |nm, m| { at(nm, contents(&m, src))?; at(nm, lookups(&mut m, src, &[]))?; });
            Ok(())
        });
    }
    let g = "limits/strings";
    for i in 0..cx.reps(150, 2000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let ks = gen_strings(&mut r, n);
        cx.case(g, &ks, n > 0, |ks| {
            let src = boxes(ks);
            contents(&FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<6>), &src)?;
            contents(&FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<0>), &src)
        });
    }
}

pub fn c16(cx: &mut Cx) {
    let g = "forms/u64";
    for i in 0..cx.reps(250, 4000) {
        let mut r = cx.rng(g, i);
        let n = if i < 6 { i } else { r.range(1, 40) };
        let src = tagged(&gen_keys(&mut r, n));
        let p = near(&src.iter().map(|e| e.0).collect::<Vec<_>>(), &mut r);
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src, p), n > 0, |(mode, src, p)| {
            let mo: std::collections::BTreeMap<u64, u32> = src.iter().copied().collect();
            each_u64_map!(src, *mode, |nm, m| {
                for k in mo.keys().chain(p) {
                    at(nm, query_map(&mut m, mo.get(k), k, true))?;
                }
            });
            let ks: Vec<u64> = src.iter().map(|e| e.0).collect();
            at("FzHashSet", lookups_set(&FzHashSet::<_>::new(ks.clone()), &ks, p))?;
            at("FzHashSet<0>", lookups_set(&FzHashSet::with_hasher(ks.clone(), Bh::<0>), &ks, p))?;
            at("FzOrderedSet", lookups_set(&FzOrderedSet::new(ks.clone()), &ks, p))?;
            at("FzScalarSet", lookups_set(&FzScalarSet::new(ks.clone()), &ks, p))?;
            // the crate's traits on foreign collections
            macro_rules! foreign { ($t:ty) => { {
                let mut m: $t = src.iter().copied().collect();
                ck!(Len::len(&m) == mo.len() && Len::is_empty(&m) == mo.is_empty(), concat!(stringify!($t), ": Len"));
                for k in mo.keys().chain(p) {
                    let w = mo.get(k);
                    ck!(<$t as MapQuery<u64, u32>>::get(&m, k) == w, concat!(stringify!($t), ": MapQuery::get({:?})"), k);
                    ck!(<$t as MapQuery<u64, u32>>::contains_key(&m, k) == w.is_some(), concat!(stringify!($t), ": MapQuery::contains_key({:?})"), k);
                    ck!(<$t as MapQuery<u64, u32>>::get_mut(&mut m, k).as_deref() == w, concat!(stringify!($t), ": MapQuery::get_mut({:?})"), k);
                    let kv = <$t as MapExtras<u64, u32, u64>>::get_key_value(&m, k);
                    ck!(kv.map(|e| e.1) == w && kv.is_none_or(|e| e.0 == k), concat!(stringify!($t), ": MapExtras::get_key_value({:?})"), k);
                }
            } } }
            foreign!(std::collections::HashMap<u64, u32>);
            foreign!(std::collections::BTreeMap<u64, u32>);
            foreign!(hashbrown::HashMap<u64, u32>);
            macro_rules! fset { ($t:ty) => { {
                let s: $t = ks.iter().copied().collect();
                ck!(Len::len(&s) == mo.len() && Len::is_empty(&s) == mo.is_empty(), concat!(stringify!($t), ": Len"));
                for k in mo.keys().chain(p) {
                    let w = mo.contains_key(k);
                    ck!(<$t as SetQuery<u64>>::contains(&s, k) == w, concat!(stringify!($t), ": SetQuery::contains({:?})"), k);
                    let g = <$t as SetExtras<u64, u64>>::get(&s, k);
                    ck!(g.is_some() == w && g.is_none_or(|x| x == k), concat!(stringify!($t), ": SetExtras::get({:?})"), k);
                }
            } } }
            fset!(std::collections::HashSet<u64>);
            fset!(std::collections::BTreeSet<u64>);
            fset!(hashbrown::HashSet<u64>);
            Ok(())
        });
    }
    let g = "forms/strings";
    for i in 0..cx.reps(200, 3000) {
        let mut r = cx.rng(g, i);
        let n = if i < 5 { i } else { r.range(1, 40) };
        let ks = gen_strings(&mut r, n);
        let p: Vec<Box<str>> = near_strings(&ks, &mut r).iter().map(|s| s.as_str().into()).collect();
        cx.case(g, &(ks, p), n > 0, |(ks, p)| {
            let src = boxes(ks);
            let mo: std::collections::BTreeMap<Box<str>, u32> = src.iter().cloned().collect();
            let mut m = FzStringMap::<Box<str>, u32, _>::with_hasher(src.clone(), Bh::<6>);
            for k in mo.keys().chain(p) {
                query_map(&mut m, mo.get(k), k, true)?;
                let s: &str = k;
                ck!(m.get(s) == mo.get(k) && m.get(k.to_string()) == mo.get(k), "get by &str / String of {k:?}");
                ck!(m.contains_key(s) == mo.contains_key(k), "contains_key by &str of {k:?}");
                ck!(<_ as MapQuery<&str, u32>>::get(&m, &s) == mo.get(k), "MapQuery<&str>::get of {k:?}");
                if mo.contains_key(k) { ck!(m[&s] == mo[k], "index by &str of {k:?}"); }
            }
            let kb: Vec<Box<str>> = src.iter().map(|e| e.0.clone()).collect();
            lookups_set(&FzStringSet::<Box<str>, _>::with_hasher(kb.clone(), Bh::<6>), &kb, p)
        });
    }
    fn sc<T: Sc>(cx: &mut Cx) {
        let g = format!("forms/{}", T::NAME);
        for i in 0..cx.reps(20, 300) {
            let mut r = cx.rng(&g, i);
            let n = r.range(0, 50);
            let ks = gen_scalars::<T>(&mut r, n);
            let p = near_scalars(&ks, &mut r);
            cx.case(&g, &(ks, p), n > 0, |(ks, p)| scalar_case(ks, p));
        }
    }
    each_scalar!(sc(cx));
    sc::<En>(cx);
    cx.case("forms/dk", &0, true, |_| {
        // equal but distinguishable keys: the returned key is the stored one, and the entry agrees
        for n in 0..30u32 {
            let src: Vec<(Dk, u32)> = (0..n).map(|i| (Dk { id: i * 5, tag: 1 }, i)).collect();
            let mut a = FzHashMap::with_hasher(src.clone(), Bh::<5>);
            let mut b = FzOrderedMap::new(src.clone());
            for (k, v) in &src {
                let q = Dk { id: k.id, tag: 2 };
                query_map(&mut a, Some(v), &q, true)?;
                query_map(&mut b, Some(v), &q, true)?;
                ck!(a.get_key_value(&q).is_some_and(|e| e.0.tag == 1), "FzHashMap returned a key that is not stored");
                ck!(b.get_key_value(&q).is_some_and(|e| e.0.tag == 1), "FzOrderedMap returned a key that is not stored");
            }
        }
        Ok(())
    });
}

pub fn c17(cx: &mut Cx) {
    use crate::alloc::measure;
    use frozen_collections::hash_tables::HashTableSlot;
    const SLACK: usize = 64;
    fn sc<T: Sc>(cx: &mut Cx) {
        let g = format!("storage/{}", T::NAME);
        for i in 0..cx.reps(60, 900) {
            let mut r = cx.rng(&g, i);
            let n = r.range(1, 60);
            let ks = gen_scalars::<T>(&mut r, n);
            cx.case(&g, &ks, n > 0, |ks| storage_scalar(ks));
        }
    }
    fn storage_scalar<T: Sc>(ks: &[T]) -> R {
        let src = tagged(ks);
        let d = model_ord(&src).len();
        let e = std::mem::size_of::<(T, u32)>();
        let (m, live, peak) = measure(|| FzScalarMap::new(src.clone()));
        ck!(m.len() == d, "len");
        let slot = std::mem::size_of::<HashTableSlot<LargeCollection>>();
        let bound = d * e + (8 * 128.max(10 * d)).max(slot * (10 * d).next_power_of_two()) + SLACK;
        ck!(live <= bound, "FzScalarMap of {d} keys keeps {live} bytes, bound {bound}");
        let work = 16 * bound + 64 * (ks.len() + 64) * e.max(16);
        ck!(peak <= work, "FzScalarMap of {d} keys needed {peak} bytes to build");
        Ok(())
    }
    each_scalar!(sc(cx));
    let g = "storage/span";
    // two runs of keys a chosen distance apart, around both limits
    for n in [2u64, 3, 5, 8, 12, 13, 14, 20, 40, 100] {
        for s in [100u64, 120, 126, 127, 128, 129, 130, 140, 200, 256, 300, 512, 640, 1024].into_iter().chain((0..6).map(|d| 10 * n - 3 + d)).chain([11 * n, 12 * n, 16 * n, 20 * n, 100 * n, 1 << 20, 1 << 40]) {
            if s < n { continue; }
            cx.case(g, &(n, s), true, |&(n, s)| {
                let mut ks: Vec<u64> = (0..n - 1).collect();
                ks.push(s - 1);
                let src = tagged(&ks);
                let d = model_ord(&src).len();
                let (m, live, _) = measure(|| FzScalarMap::new(src.clone()));
                ck!(m.len() == d, "len");
                // the general representation keeps a hash table; otherwise a range of at most max(128, 10n)
                let hash = std::mem::size_of::<HashTableSlot<LargeCollection>>() * (10 * d).next_power_of_two();
                let range = 8 * 128.max(10 * d);
                ck!(live <= d * 16 + hash.max(range) + SLACK, "FzScalarMap of {d} keys spanning {s} keeps {live} bytes");
                let slots = live.saturating_sub(d * 16) / 8;
                if slots as u64 >= s && s > 128 && s > 10 * d as u64 {
                    // more storage than the span although the span exceeds the limit: only the hash table may explain it
                    ck!(live - d * 16 <= hash + SLACK && (s as usize) * 8 != live - d * 16, "FzScalarMap of {d} keys spanning {s} keeps a range of {slots} slots");
                }
                Ok(())
            });
        }
    }
    let g = "storage/hash";
    for i in 0..cx.reps(900, 9000) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        let mode = r.below(u64::from(MODES)) as u8;
        cx.case(g, &(mode, src), n > 0, |(mode, src)| {
            let d = model_ord(src).len();
            macro_rules! one { ($nm:literal, $cm:ty, $e:expr) => { {
                let (m, live, peak) = measure(|| $e);
                if let Ok(m) = m {
                    ck!(m.len() == d, "len");
                    let slots = (10 * d).next_power_of_two();
                    let bound = d * 16 + slots * std::mem::size_of::<HashTableSlot<$cm>>() + SLACK;
                    ck!(live <= bound, "{} of {d} entries keeps {live} bytes, bound {bound}", $nm);
                    let work = 16 * bound + 4096 + 256 * src.len();
                    ck!(peak <= work, "{} of {d} entries needed {peak} bytes to build", $nm);
                }
            } } }
            one!("HashMap<Small>", SmallCollection, HashMap::<u64, u32, SmallCollection, H>::with_hasher(src.clone(), H(*mode)));
            one!("HashMap<Medium>", MediumCollection, HashMap::<u64, u32, MediumCollection, H>::with_hasher(src.clone(), H(*mode)));
            one!("HashMap<Large>", LargeCollection, HashMap::<u64, u32, LargeCollection, H>::with_hasher(src.clone(), H(*mode)));
            one!("FzHashMap", LargeCollection, Ok::<_, ()>(FzHashMap::with_hasher(src.clone(), Bh::<6>)));
            one!("FzHashMap<0>", LargeCollection, Ok::<_, ()>(FzHashMap::with_hasher(src.clone(), Bh::<0>)));
            Ok(())
        });
    }
    let g = "storage/ordered";
    for i in 0..cx.reps(100, 900) {
        let mut r = cx.rng(g, i);
        let n = sizes(&mut r);
        let src = tagged(&gen_keys(&mut r, n));
        cx.case(g, &src, n > 0, |src| {
            let d = model_ord(src).len();
            let (m, live, _) = measure(|| FzOrderedMap::new(src.clone()));
            ck!(m.len() == d && live <= d * 16 + SLACK, "FzOrderedMap of {d} entries keeps {live} bytes");
            let (m, live, _) = measure(|| ScanMap::new(src.clone()));
            ck!(m.len() == d && live <= d * 16 + SLACK, "ScanMap of {d} entries keeps {live} bytes");
            Ok(())
        });
    }
    if !cx.small {
        let g = "storage/large";
        for (n, mode) in [(2000u64, 6u8), (2000, 2), (2000, 3), (2000, 10), (20000, 6), (20000, 2)] {
            cx.case(g, &(n, mode), true, |&(n, mode)| {
                let src: Src = (0..n).map(|k| (k * 13, k as u32)).collect();
                let (m, live, _) = measure(|| HashMap::<u64, u32, LargeCollection, H>::with_hasher(src.clone(), H(mode)));
                let m = m?;
                let d = m.len();
                let bound = d * 16 + (10 * d).next_power_of_two() * std::mem::size_of::<HashTableSlot<LargeCollection>>() + SLACK;
                ck!(live <= bound, "HashMap<Large> of {d} entries keeps {live} bytes, bound {bound}");
                Ok(())
            });
        }
    }
}

