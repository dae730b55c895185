//@ module fz_maps::fz_ordered_map
pub mod fz_maps_fz_ordered_map {
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use crate::eytz_query::*;
use crate::utils_eytzinger::*;
use crate::maps_eytzinger_search_map::EytzingerSearchMap;
//@ type FzOrderedMap
impl<K, V> FzOrderedMap<K, V> {
    /// the entries, in iteration order
    pub open spec fn es(&self) -> Seq<(K, V)> { self.map_impl.entries@ }
    pub open spec fn hits<Q: ?Sized + Comparable<K>>(&self, key: &Q, i: int) -> bool { key.cmpv(&self.es()[i].0) == Ordering::Equal }
}
//@ include fz_map.vsi TY=FzOrderedMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: ?Sized + Comparable<K>>; P=C03; QOK=MapQuery::<Q, V>::qok(&self.map_impl, key); AT=MapQuery::<Q, V>::at_key(&self.map_impl, key)
/// no two of the keys find the same entry
pub open spec fn apart<K, V, Q: ?Sized + Comparable<K>>(m: FzOrderedMap<K, V>, keys: Seq<&Q>) -> bool { crate::maps_eytzinger_search_map::apart(m.map_impl, keys) }
/// (law) two queries that find one entry are equal
pub open spec fn eq_law<K, V, Q: ?Sized + Comparable<K>>(m: FzOrderedMap<K, V>) -> bool where Q: Eq { crate::maps_eytzinger_search_map::eq_law::<K, V, Q>(m.map_impl) }
//@ include disjoint_fns.vsi TY=FzOrderedMap; A=<K, V>; GQ=<K, V, Q: ?Sized + Comparable<K>>; NQ=K, V, Q; UATTR=; LEM=
/// the entries are laid out from entries in increasing key order
pub open spec fn good<K: Ord, V>(m: FzOrderedMap<K, V>) -> bool { exists|s: Seq<(K, V)>| #![trigger laid_out(s)] strictly_sorted_by(s, key_cmp::<K, V>()) && m.es() == laid_out(s) }
//@ proof ordered-layout-permutes C02,C03
/// laying out permutes
pub proof fn lemma_laid_out_permuted<T>(a: Seq<T>)
    ensures permuted(a, laid_out(a)),
{
    lemma_rearranged(a);
    let n = a.len() as int;
    let p = Seq::new(a.len(), |j: int| rank(j, n));
    let q = Seq::new(a.len(), |o: int| choose|j: int| 0 <= j < n && #[trigger] rank(j, n) == o);
    assert forall|o: int| 0 <= o < n implies 0 <= #[trigger] q[o] < n && p[q[o]] == o by { assert(taken(o, n, n)); }
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] p[j] < n && q[p[j]] == j by { assert(rank(q[p[j]], n) == rank(j, n)); }
    assert(permuted_by(a, laid_out(a), p, q));
}
//@ endproof
//@ fn FzOrderedMap::new
//@ props C01,C02,C03,C06,C15
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures res.es().len() <= entries@.len(), lawful_ord::<K, V>() ==> good(res) && deduped(entries@, res.es(), eq_by(key_cmp::<K, V>())),
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: Ordering) ensures K::obeys_cmp_spec() ==> o == key_cmp::<K, V>()(*x, *y)
//@ ghost start
        let ghost src = entries@;
        proof {
            assert forall|d: Seq<(K, V)>| #[trigger] deduped(src, d, eq_by(key_cmp::<K, V>())) implies deduped(src, laid_out(d), eq_by(key_cmp::<K, V>())) by { lemma_laid_out_permuted(d); lemma_deduped_permuted(src, d, laid_out(d), eq_by(key_cmp::<K, V>())); }
        }
//@ endfn
impl<K, V> Default for FzOrderedMap<K, V> {
//@ fn FzOrderedMap@Default::default
//@ mode bare
//@ props C03,C15
    ensures res.es().len() == 0,
//@ endfn
}
//@ fn FzOrderedMap@From::from
//@ mode free
//@ rename from_array
//@ props C02,C15,C16
//@ rewrite Vec::from(entries) =>> crate::prelude::VStore::v_into_vec(entries)
    requires N < 0x4000_0000_0000_0000,
    ensures lawful_ord::<K, V>() ==> good(res) && deduped(entries@, res.es(), eq_by(key_cmp::<K, V>())),
//@ endfn
//@ fn FzOrderedMap@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C15,C16
//@ rewrite iter.into_iter().collect() =>> crate::prelude::v_collect(iter)
    requires crate::prelude::collected(iter).len() < 0x4000_0000_0000_0000,
    ensures lawful_ord::<K, V>() ==> good(res) && deduped(crate::prelude::collected(iter), res.es(), eq_by(key_cmp::<K, V>())),
//@ endfn
}
//@ module fz_maps::fz_hash_map
pub mod fz_maps_fz_hash_map {
use vstd::prelude::*;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::hashing::*;
use crate::hashers_bridge::*;
use crate::utils_dedup::*;
use crate::traits_collection_magnitude::*;
use crate::hash_tables_common::*;
use crate::maps_hash_map::HashMap;
//@ type FzHashMap
impl<K, V, BH> FzHashMap<K, V, BH> {
    /// the entries, in iteration order
    pub open spec fn es(&self) -> Seq<(K, V)> { self.map_impl.entries.entries@ }
    pub open spec fn hits<Q: ?Sized + Hash + Equivalent<K>>(&self, key: &Q, i: int) -> bool { self.map_impl.entries.run(hash_val(self.map_impl.hasher.bh, key))(i) && key.eqv(&self.es()[i].0) }
}
//@ include fz_map.vsi TY=FzHashMap; A=<K, V, BH>; GL=<K, V, BH: BuildHasher>; GQ=<K, V, Q: ?Sized + Hash + Equivalent<K>, BH: BuildHasher>; P=C01; QOK=MapQuery::<Q, V>::qok(&self.map_impl, key); AT=MapQuery::<Q, V>::at_key(&self.map_impl, key)
/// no two of the keys find the same entry
pub open spec fn apart<K, V, Q: ?Sized + Hash + Equivalent<K>, BH: BuildHasher>(m: FzHashMap<K, V, BH>, keys: Seq<&Q>) -> bool { crate::maps_hash_map::apart(m.map_impl, keys) }
/// (law) two queries that find one entry are equal
pub open spec fn eq_law<K, V, Q: ?Sized + Hash + Equivalent<K>, BH: BuildHasher>(m: FzHashMap<K, V, BH>) -> bool where Q: Eq { crate::maps_hash_map::eq_law::<K, V, Q, LargeCollection, BridgeHasher<BH>>(m.map_impl) }
//@ include disjoint_fns.vsi TY=FzHashMap; A=<K, V, BH>; GQ=<K, V, Q: ?Sized + Hash + Equivalent<K>, BH: BuildHasher>; NQ=K, V, Q, BH; UATTR=; LEM=
pub open spec fn good<K: Hash, V, BH: BuildHasher>(m: FzHashMap<K, V, BH>, bh: BH) -> bool { m.map_impl.entries.wf() && m.map_impl.hasher.bh == bh && m.map_impl.entries.hashed(key_hash::<K, V, BridgeHasher<BH>>(m.map_impl.hasher)) }
//@ fn FzHashMap::with_hasher
//@ props C01,C02,C05,C06,C15,C17
//@ rewrite bh.hash_one =>> bh.v_hash_val
    ensures good(res, bh), lawful_key::<K, V, BridgeHasher<BH>>(res.map_impl.hasher) ==> deduped(entries@, res.es(), same_key::<K, V>()),
        crate::hash_tables_hash_table::thrifty(res.map_impl.entries), // [C17]
//@ closure 0
|x: &(K, V)| -> (b: u64) ensures b == hash_val(bh, &x.0)
//@ closure 1
|x: &(K, V), y: &(K, V)| -> (b: bool) ensures K::obeys_eq_spec() ==> b == PartialEqSpec::eq_spec(&x.0, &y.0)
//@ ghost start
        let ghost src = entries@;
        proof {
            assert(CollectionMagnitude::un(usize::MAX) == usize::MAX); assert(src.len() == entries.len());
            <LargeCollection as CollectionMagnitude>::laws();
            assert(want2(same_key::<K, V>(), key_hash::<K, V, BridgeHasher<BH>>(BridgeHasher { bh })));
            assert forall|mid: Seq<(K, V)>, dst: Seq<(K, V)>| #[trigger] deduped(src, mid, same_key::<K, V>()) && #[trigger] permuted(mid, dst) implies deduped(src, dst, same_key::<K, V>()) by {
                lemma_deduped_permuted(src, mid, dst, same_key::<K, V>());
            }
        }
//@ endfn
//@ fn FzHashMap::new
//@ mode free
//@ rename new_default
//@ props C02,C15,C17
    ensures good(res, res.map_impl.hasher.bh), lawful_key::<K, V, BridgeHasher<DefaultBuildHasher>>(res.map_impl.hasher) ==> deduped(entries@, res.es(), same_key::<K, V>()),
        crate::hash_tables_hash_table::thrifty(res.map_impl.entries), // [C17]
//@ endfn
//@ fn FzHashMap@Default::default
//@ mode free
//@ rename map_default
//@ rewrite HashMap::default() =>> crate::maps_hash_map::hash_map_default()
//@ props C01,C15,C17
    ensures res.map_impl.entries.wf(), res.es().len() == 0,
        crate::hash_tables_hash_table::thrifty(res.map_impl.entries), // [C17]
//@ endfn
//@ fn FzHashMap@From::from
//@ mode free
//@ rename from_array
//@ props C02,C15,C16,C17
//@ rewrite Vec::from(entries) =>> crate::prelude::VStore::v_into_vec(entries)
    ensures good(res, res.map_impl.hasher.bh), lawful_key::<K, V, BridgeHasher<BH>>(res.map_impl.hasher) ==> deduped(entries@, res.es(), same_key::<K, V>()),
        crate::hash_tables_hash_table::thrifty(res.map_impl.entries), // [C17]
//@ endfn
//@ fn FzHashMap@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C15,C16,C17
//@ rewrite iter.into_iter().collect() =>> crate::prelude::v_collect(iter)
    ensures good(res, res.map_impl.hasher.bh), lawful_key::<K, V, BridgeHasher<BH>>(res.map_impl.hasher) ==> deduped(crate::prelude::collected(iter), res.es(), same_key::<K, V>()),
        crate::hash_tables_hash_table::thrifty(res.map_impl.entries), // [C17]
//@ endfn
}
