//! Uniform access to the inherent and the trait methods of every map and set type of the crate.
use crate::cx::{R, panics};
use crate::ck;
use frozen_collections::inline_maps::*;
use frozen_collections::inline_sets::*;
use frozen_collections::maps::*;
use frozen_collections::{
    CollectionMagnitude, FzHashMap, FzHashSet, FzOrderedMap, FzOrderedSet, FzScalarMap, FzScalarSet, FzStringMap, FzStringSet, Hasher, Len, Map,
    MapExtras, MapIteration, MapQuery, Scalar, Set, SetExtras, SetIteration, SetQuery,
};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};

/// Model of a map: distinct keys with the value of the last occurrence, in first-occurrence order.
pub fn model<K: PartialEq + Clone, V: Clone>(src: &[(K, V)]) -> Vec<(K, V)> {
    let mut out: Vec<(K, V)> = Vec::new();
    for (k, v) in src {
        if let Some(e) = out.iter_mut().find(|e| e.0 == *k) {
            e.1 = v.clone();
        } else {
            out.push((k.clone(), v.clone()));
        }
    }
    out
}

/// The same model for large inputs, through the order of the keys.
pub fn model_ord<K: Ord + Clone, V: Clone>(src: &[(K, V)]) -> Vec<(K, V)> {
    let mut m = std::collections::BTreeMap::new();
    for (k, v) in src {
        m.insert(k.clone(), v.clone());
    }
    m.into_iter().collect()
}

pub fn same_multiset<T: PartialEq + Debug>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    'o: for x in a {
        for (i, y) in b.iter().enumerate() {
            if !used[i] && x == y {
                used[i] = true;
                continue 'o;
            }
        }
        return false;
    }
    true
}

/// Checks one iterator (rebuilt for every probe) against the exact sequence it must yield.
/// `$b` makes the iterator, `$conv` turns an item into an owned comparable value.
macro_rules! iter_exact {
    ($what:expr, $b:expr, $conv:expr, $exp:expr) => {{
        let exp = $exp;
        let n = exp.len();
        let what: &str = $what;
        // step by step
        {
            let mut it = $b;
            for pos in 0..=n + 2 {
                let left = n.saturating_sub(pos);
                let sh = it.size_hint();
                ck!(sh == (left, Some(left)), "{what}: size_hint {sh:?} with {left} of {n} left");
                let l = it.len();
                ck!(l == left, "{what}: len {l} with {left} of {n} left");
                let x = it.next().map($conv);
                if pos < n {
                    ck!(x.as_ref() == Some(&exp[pos]), "{what}: item {pos} is {x:?}, expected {:?}", exp[pos]);
                } else {
                    ck!(x.is_none(), "{what}: yields {x:?} after the end");
                }
            }
        }
        // specialised methods from several positions
        let mut ps = vec![0usize, 1, n / 2, n.saturating_sub(1), n, n + 1];
        ps.sort_unstable();
        ps.dedup();
        for pos in ps {
            let left = n.saturating_sub(pos);
            {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let c = it.count();
                ck!(c == left, "{what}: count {c} with {left} of {n} left");
            }
            {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let mut got = Vec::new();
                it.fold((), |(), x| got.push(($conv)(x)));
                ck!(got[..] == exp[n - left..], "{what}: fold after {pos} gave {got:?}");
            }
            {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let got: Vec<_> = it.map($conv).collect();
                ck!(got[..] == exp[n - left..], "{what}: collect after {pos} gave {got:?}");
            }
            {
                let mut it = $b;
                let x = it.nth(pos).map($conv);
                ck!(x.as_ref() == exp.get(pos), "{what}: nth({pos}) gave {x:?}");
                let rest = n.saturating_sub(pos + 1);
                ck!(it.len() == rest, "{what}: len {} after nth({pos}) of {n}", it.len());
                let got: Vec<_> = it.map($conv).collect();
                ck!(got[..] == exp[n - rest..], "{what}: nth({pos}) leaves {got:?}");
            }
            for k in [0, 1, 2, left, left + 1] {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let x = it.nth(k).map($conv);
                ck!(x.as_ref() == exp.get(n - left + k), "{what}: nth({k}) after {pos} gave {x:?}");
                let x = it.next().map($conv);
                ck!(x.as_ref() == exp.get(n - left + k + 1), "{what}: nth({k}) after {pos}, then next, gave {x:?}");
            }
            {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let mut got = Vec::new();
                for x in it.by_ref().take(2) { got.push(($conv)(x)); }
                it.for_each(|x| got.push(($conv)(x)));
                ck!(got[..] == exp[n - left..], "{what}: take(2) and for_each after {pos} gave {got:?}");
            }
            {
                let mut it = $b;
                for _ in 0..pos { let _ = it.next(); }
                let x = it.last().map($conv);
                ck!(x.as_ref() == exp[n - left..].last(), "{what}: last after {pos} gave {x:?}");
            }
        }
    }};
}

macro_rules! iter_clone {
    ($what:expr, $b:expr, $conv:expr, $exp:expr) => {{
        let exp = $exp;
        let n = exp.len();
        for pos in [0, 1, n / 2, n, n + 1] {
            let left = n.saturating_sub(pos);
            let mut it = $b;
            for _ in 0..pos { let _ = it.next(); }
            let c = it.clone();
            ck!(c.len() == left && c.size_hint() == (left, Some(left)), "{}: clone after {pos} reports {} left", $what, c.len());
            let got: Vec<_> = c.map($conv).collect();
            ck!(got[..] == exp[n - left..], "{}: clone after {pos} gave {got:?}", $what);
            let got: Vec<_> = it.map($conv).collect();
            ck!(got[..] == exp[n - left..], "{}: original after being cloned at {pos} gave {got:?}", $what);
        }
    }};
}


pub trait MapP<K, V>: Sized + Clone {
    fn get_(&self, k: &K) -> Option<&V>;
    fn get_mut_(&mut self, k: &K) -> Option<&mut V>;
    fn gkv_(&self, k: &K) -> Option<(&K, &V)>;
    fn ck_(&self, k: &K) -> bool;
    fn index_(&self, k: &K) -> &V;
    fn len_(&self) -> usize;
    fn empty_(&self) -> bool;
    fn tget_(&self, k: &K) -> Option<&V>;
    fn tget_mut_(&mut self, k: &K) -> Option<&mut V>;
    fn tgkv_(&self, k: &K) -> Option<(&K, &V)>;
    fn tck_(&self, k: &K) -> bool;
    fn tlen_(&self) -> (usize, bool);
    fn dj_<'a, const N: usize>(&'a mut self, keys: [&K; N]) -> [Option<&'a mut V>; N];
    fn tdj_<'a, const N: usize>(&'a mut self, keys: [&K; N]) -> [Option<&'a mut V>; N];
    /// # Safety
    /// keys distinct
    unsafe fn dju_<'a, const N: usize>(&'a mut self, keys: [&K; N]) -> [Option<&'a mut V>; N];
    fn items_(&self) -> Vec<(K, V)>;
    fn set_all_(&mut self, how: u8, f: &mut dyn FnMut(&K, &V) -> V);
    fn iters_(&mut self, want: &[(K, V)]) -> R;
}

macro_rules! map_p {
    (@inherent $s:expr, $key:ident, $q:expr, $k:ty) => { $s.get_mut($q) };
    (@traited $s:expr, $key:ident, $q:expr, $k:ty) => { <Self as MapQuery<$k, V>>::get_mut($s, $key) };
    (@inherent $s:expr, $key:ident, $q:expr, $k:ty) => { $s.get_mut($q) };
    (@traited $s:expr, $key:ident, $q:expr, $k:ty) => { <Self as MapQuery<$k, V>>::get_mut($s, $key) };
    ([$($g:tt)*] $t:ty, $k:ty, [$($w:tt)*], $key:ident => $q:expr, $gm:ident) => {
        impl<V: Clone + PartialEq + Debug, $($g)*> MapP<$k, V> for $t where $($w)* {
            fn get_(&self, $key: &$k) -> Option<&V> { self.get($q) }
            fn get_mut_(&mut self, $key: &$k) -> Option<&mut V> { map_p!(@$gm self, $key, $q, $k) }
            fn gkv_(&self, $key: &$k) -> Option<(&$k, &V)> { self.get_key_value($q) }
            fn ck_(&self, $key: &$k) -> bool { self.contains_key($q) }
            fn index_(&self, $key: &$k) -> &V { &self[$key] }
            fn len_(&self) -> usize { self.len() }
            fn empty_(&self) -> bool { self.is_empty() }
            fn tget_(&self, k: &$k) -> Option<&V> { <Self as MapQuery<$k, V>>::get(self, k) }
            fn tget_mut_(&mut self, k: &$k) -> Option<&mut V> { <Self as MapQuery<$k, V>>::get_mut(self, k) }
            fn tgkv_(&self, k: &$k) -> Option<(&$k, &V)> { <Self as MapExtras<$k, V, $k>>::get_key_value(self, k) }
            fn tck_(&self, k: &$k) -> bool { <Self as MapQuery<$k, V>>::contains_key(self, k) }
            fn tlen_(&self) -> (usize, bool) { (<Self as Len>::len(self), <Self as Len>::is_empty(self)) }
            fn dj_<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut V>; N] { self.get_disjoint_mut(keys) }
            fn tdj_<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut V>; N] {
                <Self as MapExtras<$k, V, $k>>::get_disjoint_mut(self, keys)
            }
            unsafe fn dju_<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut V>; N] {
                unsafe { self.get_disjoint_unchecked_mut(keys) }
            }
            fn items_(&self) -> Vec<($k, V)> {
                self.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
            }
            fn set_all_(&mut self, how: u8, f: &mut dyn FnMut(&$k, &V) -> V) {
                match how {
                    0 => for (k, v) in self.iter_mut() { *v = f(k, v); },
                    1 => for (k, v) in &mut *self { *v = f(k, v); },
                    2 => for (k, v) in <Self as MapIteration<$k, V>>::iter_mut(self) { *v = f(k, v); },
                    3 => {
                        let ks: Vec<$k> = self.keys().cloned().collect();
                        for (k, v) in ks.iter().zip(self.values_mut()) { *v = f(k, v); }
                    }
                    _ => {
                        let ks: Vec<$k> = <Self as MapIteration<$k, V>>::keys(self).cloned().collect();
                        for (k, v) in ks.iter().zip(<Self as MapIteration<$k, V>>::values_mut(self)) { *v = f(k, v); }
                    }
                }
            }
            fn iters_(&mut self, want: &[($k, V)]) -> R {
                fn own<K: Clone, V: Clone>(x: (&K, &V)) -> (K, V) { (x.0.clone(), x.1.clone()) }
                let exp: Vec<($k, V)> = self.items_();
                ck!(same_multiset(&exp, want), "iter yields {exp:?}, expected the entries {want:?}");
                let keys: Vec<$k> = exp.iter().map(|e| e.0.clone()).collect();
                let vals: Vec<V> = exp.iter().map(|e| e.1.clone()).collect();
                iter_exact!("iter", self.iter(), own, &exp);
                iter_clone!("iter", self.iter(), own, &exp);
                iter_exact!("into_iter(&)", (&*self).into_iter(), own, &exp);
                iter_exact!("MapIteration::iter", <Self as MapIteration<$k, V>>::iter(self), own, &exp);
                iter_exact!("iter_mut", self.iter_mut(), |x: (&$k, &mut V)| (x.0.clone(), x.1.clone()), &exp);
                iter_exact!("into_iter(&mut)", (&mut *self).into_iter(), |x: (&$k, &mut V)| (x.0.clone(), x.1.clone()), &exp);
                iter_exact!("MapIteration::iter_mut", <Self as MapIteration<$k, V>>::iter_mut(self), |x: (&$k, &mut V)| (x.0.clone(), x.1.clone()), &exp);
                iter_exact!("keys", self.keys(), |x: &$k| x.clone(), &keys);
                iter_clone!("keys", self.keys(), |x: &$k| x.clone(), &keys);
                iter_exact!("MapIteration::keys", <Self as MapIteration<$k, V>>::keys(self), |x: &$k| x.clone(), &keys);
                iter_exact!("values", self.values(), |x: &V| x.clone(), &vals);
                iter_clone!("values", self.values(), |x: &V| x.clone(), &vals);
                iter_exact!("MapIteration::values", <Self as MapIteration<$k, V>>::values(self), |x: &V| x.clone(), &vals);
                iter_exact!("values_mut", self.values_mut(), |x: &mut V| x.clone(), &vals);
                iter_exact!("MapIteration::values_mut", <Self as MapIteration<$k, V>>::values_mut(self), |x: &mut V| x.clone(), &vals);
                // consuming forms: any order, but the same multiset, and exact counts
                let it: Vec<($k, V)> = IntoIterator::into_iter(self.clone()).collect();
                ck!(same_multiset(&it, want), "into_iter yields {it:?}, expected the entries {want:?}");
                iter_exact!("into_iter", IntoIterator::into_iter(self.clone()), |x: ($k, V)| x, &it);
                let ik: Vec<$k> = self.clone().into_keys().collect();
                let wk: Vec<$k> = want.iter().map(|e| e.0.clone()).collect();
                ck!(same_multiset(&ik, &wk), "into_keys yields {ik:?}, expected {wk:?}");
                iter_exact!("into_keys", self.clone().into_keys(), |x: $k| x, &ik);
                iter_exact!("MapIteration::into_keys", <Self as MapIteration<$k, V>>::into_keys(self.clone()), |x: $k| x, &ik);
                let iv: Vec<V> = self.clone().into_values().collect();
                let wv: Vec<V> = want.iter().map(|e| e.1.clone()).collect();
                ck!(same_multiset(&iv, &wv), "into_values yields {iv:?}, expected {wv:?}");
                iter_exact!("into_values", self.clone().into_values(), |x: V| x, &iv);
                iter_exact!("MapIteration::into_values", <Self as MapIteration<$k, V>>::into_values(self.clone()), |x: V| x, &iv);
                Ok(())
            }
        }
    };
}

map_p!([K: Clone + Debug + Eq] ScanMap<K, V>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Ord] EytzingerSearchMap<K, V>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Eq, CM: CollectionMagnitude, H: Hasher<K> + Clone] HashMap<K, V, CM, H>, K, [], k => k, inherent);
map_p!([K: Debug + Scalar] DenseScalarLookupMap<K, V>, K, [], k => k, inherent);
map_p!([K: Debug + Scalar] SparseScalarLookupMap<K, V>, K, [], k => k, traited);
map_p!([K: Clone + Debug + Eq, const SZ: usize] InlineScanMap<K, V, SZ>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Ord, const SZ: usize] InlineEytzingerSearchMap<K, V, SZ>, K, [], k => k, inherent);
map_p!([K: Debug + Scalar, const SZ: usize] InlineDenseScalarLookupMap<K, V, SZ>, K, [], k => k, inherent);
map_p!([K: Debug + Scalar, const SZ: usize, const L: usize, CM: CollectionMagnitude] InlineSparseScalarLookupMap<K, V, SZ, L, CM>, K, [], k => k, traited);
map_p!([K: Clone + Debug + Eq, const SZ: usize, const NS: usize, CM: CollectionMagnitude, H: Hasher<K> + Clone] InlineHashMap<K, V, SZ, NS, CM, H>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Eq, const SZ: usize, const NS: usize, CM: CollectionMagnitude, H: Hasher<K> + Clone] InlineHashMapNoCollisions<K, V, SZ, NS, CM, H>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Eq + Hash, BH: BuildHasher + Clone] FzHashMap<K, V, BH>, K, [], k => k, inherent);
map_p!([K: Clone + Debug + Ord] FzOrderedMap<K, V>, K, [], k => k, inherent);
map_p!([K: Debug + Scalar] FzScalarMap<K, V>, K, [], k => k, inherent);
map_p!([BH: BuildHasher + Clone] FzStringMap<Box<str>, V, BH>, Box<str>, [], k => &**k, inherent);

pub trait SetP<T>: Sized + Clone {
    fn get_(&self, k: &T) -> Option<&T>;
    fn contains_(&self, k: &T) -> bool;
    fn tget_(&self, k: &T) -> Option<&T>;
    fn tcontains_(&self, k: &T) -> bool;
    fn len_(&self) -> usize;
    fn empty_(&self) -> bool;
    fn tlen_(&self) -> (usize, bool);
    fn items_(&self) -> Vec<T>;
    fn iters_(&mut self, want: &[T]) -> R;
}

macro_rules! set_p {
    ([$($g:tt)*] $t:ty, $k:ty, $key:ident => $q:expr) => {
        impl<$($g)*> SetP<$k> for $t {
            fn get_(&self, $key: &$k) -> Option<&$k> { self.get($q) }
            fn contains_(&self, $key: &$k) -> bool { self.contains($q) }
            fn tget_(&self, k: &$k) -> Option<&$k> { <Self as SetExtras<$k, $k>>::get(self, k) }
            fn tcontains_(&self, k: &$k) -> bool { <Self as SetQuery<$k>>::contains(self, k) }
            fn len_(&self) -> usize { self.len() }
            fn empty_(&self) -> bool { self.is_empty() }
            fn tlen_(&self) -> (usize, bool) { (<Self as Len>::len(self), <Self as Len>::is_empty(self)) }
            fn items_(&self) -> Vec<$k> { self.iter().cloned().collect() }
            fn iters_(&mut self, want: &[$k]) -> R {
                let exp: Vec<$k> = self.items_();
                ck!(same_multiset(&exp, want), "iter yields {exp:?}, expected {want:?}");
                iter_exact!("iter", self.iter(), |x: &$k| x.clone(), &exp);
                iter_clone!("iter", self.iter(), |x: &$k| x.clone(), &exp);
                iter_exact!("into_iter(&)", (&*self).into_iter(), |x: &$k| x.clone(), &exp);
                iter_exact!("SetIteration::iter", <Self as SetIteration<$k>>::iter(self), |x: &$k| x.clone(), &exp);
                let it: Vec<$k> = IntoIterator::into_iter(self.clone()).collect();
                ck!(same_multiset(&it, want), "into_iter yields {it:?}, expected {want:?}");
                iter_exact!("into_iter", IntoIterator::into_iter(self.clone()), |x: $k| x, &it);
                Ok(())
            }
        }
    };
}

set_p!([K: Clone + Debug + Eq + Hash, BH: BuildHasher + Clone] FzHashSet<K, BH>, K, k => k);
set_p!([K: Clone + Debug + Ord] FzOrderedSet<K>, K, k => k);
set_p!([K: Debug + Scalar] FzScalarSet<K>, K, k => k);
set_p!([BH: BuildHasher + Clone] FzStringSet<Box<str>, BH>, Box<str>, k => &**k);
set_p!([K: Clone + Debug + Eq, const SZ: usize] InlineScanSet<K, SZ>, K, k => k);
set_p!([K: Clone + Debug + Ord, const SZ: usize] InlineEytzingerSearchSet<K, SZ>, K, k => k);
set_p!([K: Debug + Scalar, const SZ: usize] InlineDenseScalarLookupSet<K, SZ>, K, k => k);
set_p!([K: Debug + Scalar, const SZ: usize, const L: usize, CM: CollectionMagnitude] InlineSparseScalarLookupSet<K, SZ, L, CM>, K, k => k);
set_p!([K: Clone + Debug + Eq, const SZ: usize, const NS: usize, CM: CollectionMagnitude, H: Hasher<K> + Clone] InlineHashSet<K, SZ, NS, CM, H>, K, k => k);
set_p!([K: Clone + Debug + Eq, const SZ: usize, const NS: usize, CM: CollectionMagnitude, H: Hasher<K> + Clone] InlineHashSetNoCollisions<K, SZ, NS, CM, H>, K, k => k);

/// Every query form for one key against the model.
pub fn query_map<K: PartialEq + Debug, V: PartialEq + Debug, M: MapP<K, V>>(m: &mut M, want: Option<&V>, k: &K, index: bool) -> R {
    let w = want;
    let g = m.get_(k);
    ck!(g == w, "get({k:?}) = {g:?}, expected {w:?}");
    let kv = m.gkv_(k);
    ck!(kv.map(|e| e.1) == w, "get_key_value({k:?}) = {kv:?}, expected value {w:?}");
    if let Some((kk, _)) = kv {
        ck!(kk == k, "get_key_value({k:?}) returned key {kk:?}");
    }
    if let (Some(a), Some((_, b))) = (m.get_(k), m.gkv_(k)) {
        ck!(std::ptr::eq(a, b), "get and get_key_value({k:?}) return different entries");
    }
    if let (Some(a), Some(b)) = (m.get_(k), m.tget_(k)) {
        ck!(std::ptr::eq(a, b), "get and MapQuery::get({k:?}) return different entries");
    }
    ck!(m.ck_(k) == w.is_some(), "contains_key({k:?}) = {}", m.ck_(k));
    ck!(m.tget_(k) == w, "MapQuery::get({k:?}) = {:?}, expected {w:?}", m.tget_(k));
    ck!(m.tck_(k) == w.is_some(), "MapQuery::contains_key({k:?}) = {}", m.tck_(k));
    let t = m.tgkv_(k);
    ck!(t.map(|e| e.1) == w, "MapExtras::get_key_value({k:?}) = {t:?}, expected {w:?}");
    if let Some((kk, _)) = t {
        ck!(kk == k, "MapExtras::get_key_value({k:?}) returned key {kk:?}");
    }
    let pos = m.get_(k).map(|r| r as *const V);
    let x = m.get_mut_(k);
    ck!(x.as_deref() == w, "get_mut({k:?}) = {x:?}, expected {w:?}");
    ck!(x.map(|r| r as *const V) == pos, "get_mut and get({k:?}) reach different entries");
    let x = m.tget_mut_(k);
    ck!(x.as_deref() == w, "MapQuery::get_mut({k:?}) = {x:?}, expected {w:?}");
    ck!(x.map(|r| r as *const V) == pos, "MapQuery::get_mut and get({k:?}) reach different entries");
    if let Some(w) = w {
        ck!(m.index_(k) == w, "index by {k:?} gave {:?}, expected {w:?}", m.index_(k));
    } else if index {
        ck!(panics(|| { let _ = m.index_(k); }), "index by absent {k:?} did not panic");
    }
    Ok(())
}

pub fn query_set<T: PartialEq + Debug, S: SetP<T>>(s: &S, want: bool, k: &T) -> R {
    let g = s.get_(k);
    ck!(g.is_some() == want, "get({k:?}) = {g:?}, expected present={want}");
    if let Some(x) = g {
        ck!(x == k, "get({k:?}) returned {x:?}");
    }
    ck!(s.contains_(k) == want, "contains({k:?}) = {}", s.contains_(k));
    let g = s.tget_(k);
    ck!(g.is_some() == want && g.is_none_or(|x| x == k), "SetExtras::get({k:?}) = {g:?}, expected present={want}");
    ck!(s.tcontains_(k) == want, "SetQuery::contains({k:?}) = {}", s.tcontains_(k));
    Ok(())
}

/// Lookup of every key and every probe against the model, plus the reported length.
pub fn lookups<K: PartialEq + Ord + Clone + Debug, V: PartialEq + Clone + Debug, M: MapP<K, V>>(m: &mut M, src: &[(K, V)], probes: &[K]) -> R {
    let mo: std::collections::BTreeMap<K, V> = src.iter().cloned().collect();
    lengths(m, mo.len())?;
    for (i, k) in mo.keys().chain(probes).enumerate() {
        query_map(m, mo.get(k), k, i % 7 == 0 || mo.len() < 4)?;
    }
    Ok(())
}

pub fn lengths<K, V, M: MapP<K, V>>(m: &M, n: usize) -> R {
    ck!(m.len_() == n, "len = {}, expected {n}", m.len_());
    ck!(m.empty_() == (n == 0), "is_empty = {} with {n} entries", m.empty_());
    ck!(m.tlen_() == (n, n == 0), "Len gives {:?} with {n} entries", m.tlen_());
    Ok(())
}

/// The map holds exactly the model's entries.
pub fn contents<K: Ord + Clone + Debug, V: Clone + PartialEq + Debug, M: MapP<K, V>>(m: &M, src: &[(K, V)]) -> R {
    let mo: std::collections::BTreeMap<K, V> = src.iter().cloned().collect();
    let got = m.items_();
    let mut keys: Vec<K> = got.iter().map(|e| e.0.clone()).collect();
    keys.sort();
    ck!(keys.iter().eq(mo.keys()), "holds keys {keys:?}, expected {:?}", mo.keys());
    for (k, v) in &got {
        ck!(mo.get(k) == Some(v), "key {k:?} holds {v:?}, expected {:?}", mo.get(k));
    }
    lengths(m, mo.len())
}

pub fn lookups_set<T: Ord + Clone + Debug, S: SetP<T>>(s: &S, src: &[T], probes: &[T]) -> R {
    let mo: std::collections::BTreeSet<T> = src.iter().cloned().collect();
    let n = mo.len();
    ck!(s.len_() == n, "len = {}, expected {n}", s.len_());
    ck!(s.empty_() == (n == 0), "is_empty = {} with {n} entries", s.empty_());
    ck!(s.tlen_() == (n, n == 0), "Len gives {:?} with {n} entries", s.tlen_());
    for k in mo.iter().chain(probes) {
        query_set(s, mo.contains(k), k)?;
    }
    let mut got = s.items_();
    got.sort();
    ck!(got.iter().eq(mo.iter()), "holds {got:?}, expected {mo:?}");
    Ok(())
}

fn _assert_set<T, S: Set<T>>() {}
fn _assert_map<K, V, M: Map<K, V>>() {}
