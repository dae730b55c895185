/// The facade maps and sets are models: whatever representation was chosen, they answer as the entries they hold say.
pub mod fz_models {
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
use core::hash::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::hashing::*;
use crate::strings::*;
use crate::equality::*;
use crate::map_models::*;
use crate::set_models::*;
use crate::set_traits::*;
use crate::iter_specs::firsts;
use crate::traits_collection_magnitude::*;
use crate::eytz_query::*;
use crate::hashers_scalar::ScalarHasher;
use crate::hashers_bridge::*;
use crate::fz_maps_fz_scalar_map::FzScalarMap;
use crate::fz_maps_fz_ordered_map::FzOrderedMap;
use crate::fz_maps_fz_hash_map::FzHashMap;
use crate::fz_maps_fz_string_map::FzStringMap;
use crate::fz_sets_fz_scalar_set::FzScalarSet;
use crate::fz_sets_fz_ordered_set::FzOrderedSet;
use crate::fz_sets_fz_hash_set::FzHashSet;
use crate::fz_sets_fz_string_set::FzStringSet;
use vstd::std_specs::cmp::*;
//@ proof facade-maps-are-models C01,C04,C11,C16
pub proof fn lemma_models_same<K, V, M1: MapQuery<K, V>, M2: MapQuery<K, V>>(m1: M1, m2: M2, e: Seq<(K, V)>, same: spec_fn(K, K) -> bool)
    requires models(m1, e, same), m2.lenv() == m1.lenv(), forall|k: K| #[trigger] m2.at_key(&k) == m1.at_key(&k),
    ensures models(m2, e, same),
{
    assert forall|k: K| (#[trigger] m2.at_key(&k)) is Some == holds(firsts(e), same, k) by { assert(m1.at_key(&k) is Some == holds(firsts(e), same, k)); }
    assert forall|k: K, j: int| 0 <= j < e.len() && same((#[trigger] e[j]).0, k) implies #[trigger] m2.at_key(&k) == Some(e[j].1) by { assert(m1.at_key(&k) == Some(e[j].1)); }
}
pub proof fn lemma_distinct_keys<K, V>(e: Seq<(K, V)>, same2: spec_fn((K, V), (K, V)) -> bool, same: spec_fn(K, K) -> bool)
    requires distinct(e, same2), forall|x: (K, V), y: (K, V)| #[trigger] same2(x, y) == same(x.0, y.0),
    ensures distinct(firsts(e), same),
{
    let f = firsts(e);
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies !#[trigger] same(f[i], f[j]) by { assert(!same2(e[i], e[j])); }
}
pub proof fn theorem_fz_scalar_map<K: Scalar, V>(m: FzScalarMap<K, V>)
    requires crate::fz_maps_fz_scalar_map::good(m), distinct(m.es(), same_idx::<K, V>()),
    ensures models::<K, V, FzScalarMap<K, V>>(m, m.es(), key_same_idx::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    use crate::fz_maps_fz_scalar_map::MapTypes;
    K::laws();
    lemma_distinct_keys(m.es(), same_idx::<K, V>(), key_same_idx::<K>());
    match m.map_impl {
        MapTypes::Hash(x) => {
            assert(key_eq::<K>() =~= key_same_idx::<K>());
            theorem_maps_hash_map(x);
            lemma_models_same::<K, V, _, FzScalarMap<K, V>>(x, m, m.es(), key_same_idx::<K>());
            assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::qok(&x, &k)); }
        }
        MapTypes::Dense(x) => {
            theorem_maps_dense_scalar_lookup_map(x);
            lemma_models_same::<K, V, _, FzScalarMap<K, V>>(x, m, m.es(), key_same_idx::<K>());
            assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::qok(&x, &k)); }
        }
        MapTypes::Sparse(x) => {
            theorem_maps_sparse_scalar_lookup_map(x);
            lemma_models_same::<K, V, _, FzScalarMap<K, V>>(x, m, m.es(), key_same_idx::<K>());
            assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::qok(&x, &k)); }
        }
    }
}
pub proof fn theorem_fz_ordered_map<K: Ord, V>(m: FzOrderedMap<K, V>)
    requires crate::fz_maps_fz_ordered_map::good(m), lawful_ord::<K, V>(), equivalence(key_same_ord::<K>()), m.es().len() < 0x4000_0000_0000_0000,
        forall|k: K| #[trigger] lawful_comparison::<K, K>(&k),
    ensures models::<K, V, FzOrderedMap<K, V>>(m, m.es(), key_same_ord::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let s = choose|s: Seq<(K, V)>| #![trigger crate::utils_eytzinger::laid_out(s)] strictly_sorted_by(s, key_cmp::<K, V>()) && m.es() == crate::utils_eytzinger::laid_out(s);
    let x = m.map_impl;
    theorem_maps_eytzinger_search_map(x, s);
    lemma_models_same::<K, V, _, FzOrderedMap<K, V>>(x, m, m.es(), key_same_ord::<K>());
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::qok(&x, &k)); }
}
pub proof fn theorem_fz_hash_map<K: Hash + Eq, V, BH: BuildHasher>(m: FzHashMap<K, V, BH>, bh: BH)
    requires crate::fz_maps_fz_hash_map::good(m, bh), lawful_key::<K, V, BridgeHasher<BH>>(m.map_impl.hasher), equivalence(key_eq::<K>()), distinct(m.es(), same_key::<K, V>()),
    ensures models::<K, V, FzHashMap<K, V, BH>>(m, m.es(), key_eq::<K>()), forall|k: K| MapQuery::<K, V>::qok(&m, &k),
{
    let x = m.map_impl;
    lemma_distinct_keys(m.es(), same_key::<K, V>(), key_eq::<K>());
    theorem_maps_hash_map(x);
    lemma_models_same::<K, V, _, FzHashMap<K, V, BH>>(x, m, m.es(), key_eq::<K>());
    assert forall|k: K| MapQuery::<K, V>::qok(&m, &k) by { assert(MapQuery::<K, V>::qok(&x, &k)); }
}
//@ endproof
//@ proof string-map-answers-exactly C01,C05,C11,C16
pub open spec fn key_same_str() -> spec_fn(Box<str>, Box<str>) -> bool { |a: Box<str>, b: Box<str>| bytes(&a) == bytes(&b) }
/// whatever part of the string the chosen hasher looks at, every query is answered by the entry with exactly its bytes, if any
pub proof fn theorem_string_query<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>, bh: BH, s: &str)
    requires crate::fz_maps_fz_string_map::good(m, bh), distinct(m.es(), same_str::<V>()),
    ensures m.ok_str(s),
        m.at_str(s) is Some ==> exists|i: int| 0 <= i < m.es().len() && bytes(&(#[trigger] m.es()[i]).0) == s.spec_bytes() && m.at_str(s) == Some(m.es()[i].1),
        forall|i: int| 0 <= i < m.es().len() && bytes(&(#[trigger] m.es()[i]).0) == s.spec_bytes() ==> m.at_str(s) == Some(m.es()[i].1),
{
    use crate::fz_maps_fz_string_map::MapTypes;
    axiom_hash_str::<BH>();
    let e = m.es();
    let hit = by_eqv::<Box<str>, str>(s);
    assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && hit((#[trigger] e[i]).0) && hit((#[trigger] e[j]).0) implies i == j by {
        if i != j { assert(!same_str::<V>()(e[i], e[j])); }
    }
    match m.map_impl {
        MapTypes::LeftRange(x) => {
            let run = x.entries.run(Hasher::<str>::hashv(&x.hasher, s));
            assert forall|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0) implies run(i) by { assert(Hasher::<Box<str>>::hashv(&x.hasher, &e[i].0) == Hasher::<str>::hashv(&x.hasher, s)); assert(key_hash::<Box<str>, V, _>(x.hasher)(e[i]) == Hasher::<str>::hashv(&x.hasher, s)); }
            lemma_found(e, run, hit);
        }
        MapTypes::RightRange(x) => {
            let run = x.entries.run(Hasher::<str>::hashv(&x.hasher, s));
            assert forall|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0) implies run(i) by { assert(Hasher::<Box<str>>::hashv(&x.hasher, &e[i].0) == Hasher::<str>::hashv(&x.hasher, s)); assert(key_hash::<Box<str>, V, _>(x.hasher)(e[i]) == Hasher::<str>::hashv(&x.hasher, s)); }
            lemma_found(e, run, hit);
        }
        MapTypes::Hash(x) => {
            let run = x.entries.run(Hasher::<str>::hashv(&x.hasher, s));
            assert forall|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0) implies run(i) by { assert(Hasher::<Box<str>>::hashv(&x.hasher, &e[i].0) == Hasher::<str>::hashv(&x.hasher, s)); assert(key_hash::<Box<str>, V, _>(x.hasher)(e[i]) == Hasher::<str>::hashv(&x.hasher, s)); }
            lemma_found(e, run, hit);
        }
    }
}
pub proof fn theorem_fz_string_map<V, BH: BuildHasher>(m: FzStringMap<Box<str>, V, BH>, bh: BH)
    requires crate::fz_maps_fz_string_map::good(m, bh), distinct(m.es(), same_str::<V>()),
    ensures models::<Box<str>, V, FzStringMap<Box<str>, V, BH>>(m, m.es(), key_same_str()), forall|k: Box<str>| MapQuery::<Box<str>, V>::qok(&m, &k),
{
    let e = m.es();
    lemma_distinct_keys(e, same_str::<V>(), key_same_str());
    assert forall|k: Box<str>, i: int| 0 <= i < e.len() && key_same_str()(k, (#[trigger] e[i]).0) implies #[trigger] MapQuery::<Box<str>, V>::at_key(&m, &k) == Some(e[i].1) by { theorem_string_query(m, bh, str_of(&k)); }
    assert forall|k: Box<str>| (#[trigger] MapQuery::<Box<str>, V>::at_key(&m, &k)) is Some implies exists|i: int| 0 <= i < e.len() && key_same_str()(k, (#[trigger] e[i]).0) by { theorem_string_query(m, bh, str_of(&k)); }
    assert forall|k: Box<str>| #[trigger] MapQuery::<Box<str>, V>::qok(&m, &k) by { theorem_string_query(m, bh, str_of(&k)); }
    lemma_models::<Box<str>, V, FzStringMap<Box<str>, V, BH>>(m, e, key_same_str());
}
//@ endproof
//@ proof facade-sets-are-sets C09,C10,C11,C12,C16
pub proof fn theorem_fz_scalar_set<T: Scalar>(s: FzScalarSet<T>)
    requires crate::fz_maps_fz_scalar_map::good(s.map), distinct(s.map.es(), same_idx::<T, ()>()),
    ensures set_of(s, s.all(), key_same_idx::<T>()),
{
    theorem_fz_scalar_map(s.map);
    lemma_set_of::<T, FzScalarMap<T, ()>, FzScalarSet<T>>(s.map, s, s.map.es(), key_same_idx::<T>());
}
pub proof fn theorem_fz_ordered_set<T: Ord>(s: FzOrderedSet<T>)
    requires crate::fz_maps_fz_ordered_map::good(s.map), lawful_ord::<T, ()>(), equivalence(key_same_ord::<T>()), s.map.es().len() < 0x4000_0000_0000_0000, forall|k: T| #[trigger] lawful_comparison::<T, T>(&k),
    ensures set_of(s, s.all(), key_same_ord::<T>()),
{
    theorem_fz_ordered_map(s.map);
    lemma_set_of::<T, FzOrderedMap<T, ()>, FzOrderedSet<T>>(s.map, s, s.map.es(), key_same_ord::<T>());
}
pub proof fn theorem_fz_hash_set<T: Hash + Eq, BH: BuildHasher>(s: FzHashSet<T, BH>, bh: BH)
    requires crate::fz_maps_fz_hash_map::good(s.map, bh), lawful_key::<T, (), BridgeHasher<BH>>(s.map.map_impl.hasher), equivalence(key_eq::<T>()), distinct(s.map.es(), same_key::<T, ()>()),
    ensures set_of(s, s.all(), key_eq::<T>()),
{
    theorem_fz_hash_map(s.map, bh);
    lemma_set_of::<T, FzHashMap<T, (), BH>, FzHashSet<T, BH>>(s.map, s, s.map.es(), key_eq::<T>());
}
pub proof fn theorem_fz_string_set<BH: BuildHasher>(s: FzStringSet<Box<str>, BH>, bh: BH)
    requires crate::fz_maps_fz_string_map::good(s.map, bh), distinct(s.map.es(), same_str::<()>()),
    ensures set_of(s, s.all(), key_same_str()),
{
    theorem_fz_string_map(s.map, bh);
    lemma_set_of::<Box<str>, FzStringMap<Box<str>, (), BH>, FzStringSet<Box<str>, BH>>(s.map, s, s.map.es(), key_same_str());
}
//@ endproof
}
