//@ module analyzers::scalar_key_analyzer
pub mod analyzers_scalar_key_analyzer {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::query::*;
//@ type ScalarKeyAnalysisResult
pub open spec fn bounds<K: Scalar>(s: Seq<K>, lo: int, hi: int) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).idx() <= hi)
        && (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).idx() == lo) && (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).idx() == hi)
}
//@ proof bounds-of-keys C04,C15
pub proof fn lemma_bounds<K: Scalar>(s: Seq<K>, n: int, lo: int, hi: int)
    requires 0 <= n < s.len(), n > 0 ==> bounds(s.take(n), lo, hi),
    ensures n == 0 ==> bounds(s.take(1), s[0].idx() as int, s[0].idx() as int),
        n > 0 ==> bounds(s.take(n + 1), if s[n].idx() < lo { s[n].idx() as int } else { lo }, if s[n].idx() > hi { s[n].idx() as int } else { hi }),
{
    let t = s.take(n + 1);
    assert(t[n] == s[n]);
    assert forall|i: int| 0 <= i < n implies t[i] == #[trigger] s.take(n)[i] by {}
    if n > 0 {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).idx() == lo;
        let j = choose|j: int| 0 <= j < n && (#[trigger] s.take(n)[j]).idx() == hi;
        assert(t[i].idx() == lo); assert(t[j].idx() == hi);
        assert forall|k: int| 0 <= k < t.len() implies (if s[n].idx() < lo { s[n].idx() as int } else { lo }) <= (#[trigger] t[k]).idx() <= (if s[n].idx() > hi { s[n].idx() as int } else { hi }) by {
            if k < n { assert(t[k] == s.take(n)[k]); }
        }
    }
}
//@ endproof
/// the widest range a direct lookup table is made for
pub open spec fn range_cap(n: int) -> int { if 10 * n > 128 { 10 * n } else { 128 } }
//@ fn analyze_scalar_keys
//@ props C04,C15,C17
//@ rewrite keys : impl Iterator<Item : Scalar> =>> keys: std::vec::IntoIter<impl Scalar>
    requires keys.obeys_prophetic_iter_laws(), keys.decrease() is Some, keys.remaining().len() < usize::MAX,
    ensures
        res is DenseRange ==> exists|lo: int, hi: int| #[trigger] bounds(keys.remaining(), lo, hi) && hi - lo == keys.remaining().len() - 1,
        res is SparseRange ==> exists|lo: int, hi: int| #[trigger] bounds(keys.remaining(), lo, hi) && hi - lo < usize::MAX && hi - lo + 1 <= range_cap(keys.remaining().len() as int),
//@ ghost start
        let ghost s = keys.remaining();
//@ loop 0
            invariant it0.seq() == s, count == it0.index(), s.len() < usize::MAX,
                count == 0 ==> min == usize::MAX && max == usize::MIN,
                count > 0 ==> bounds(s.take(count as int), min as int, max as int),
//@ ghost loop_begin 0
            proof { lemma_bounds(s, count as int, min as int, max as int); assert(key == s[count as int]); assert(count > 0 ==> min <= max) by { if count > 0 { let i = choose|i: int| 0 <= i < count && (#[trigger] s.take(count as int)[i]).idx() == min; } } }
//@ ghost after_loop 0
        proof { assert(s.take(s.len() as int) =~= s); }
//@ endfn
}
//@ module fz_maps::fz_scalar_map
pub mod fz_maps_fz_scalar_map {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use crate::traits_collection_magnitude::*;
use crate::traits_scalar::*;
use crate::hashers_scalar::*;
use crate::analyzers_scalar_key_analyzer::*;
use crate::maps_hash_map::HashMap;
use crate::maps_dense_scalar_lookup_map::DenseScalarLookupMap;
use crate::maps_sparse_scalar_lookup_map::SparseScalarLookupMap;
//@ type MapTypes
//@ type FzScalarMap
impl<K, V> FzScalarMap<K, V> {
    /// the entries, in iteration order
    pub open spec fn es(&self) -> Seq<(K, V)> { match self.map_impl { MapTypes::Hash(m) => m.entries.entries@, MapTypes::Dense(m) => m.entries@, MapTypes::Sparse(m) => m.entries@ } }
    pub open spec fn hits<Q: Scalar + Comparable<K>>(&self, key: &Q, i: int) -> bool {
        match self.map_impl { MapTypes::Hash(m) => m.entries.run(m.hasher.hashv(key))(i) && key.eqv(&m.entries.entries@[i].0), MapTypes::Dense(m) => m.pos(key.idx()) == i, MapTypes::Sparse(m) => m.pos(key.idx()) == i }
    }
}
//@ include fz_map.vsi TY=FzScalarMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; P=C04; QOK=match self.map_impl { MapTypes::Hash(m) => MapQuery::<Q, V>::qok(&m, key), MapTypes::Dense(m) => MapQuery::<Q, V>::qok(&m, key), MapTypes::Sparse(m) => MapQuery::<Q, V>::qok(&m, key) }; AT=match self.map_impl { MapTypes::Hash(m) => MapQuery::<Q, V>::at_key(&m, key), MapTypes::Dense(m) => MapQuery::<Q, V>::at_key(&m, key), MapTypes::Sparse(m) => MapQuery::<Q, V>::at_key(&m, key) }
/// no two of the keys find the same entry
pub open spec fn apart<K, V, Q: Scalar + Comparable<K>>(m: FzScalarMap<K, V>, keys: Seq<&Q>) -> bool { match m.map_impl { MapTypes::Hash(x) => crate::maps_hash_map::apart(x, keys), MapTypes::Dense(x) => crate::maps_dense_scalar_lookup_map::apart(x, keys), MapTypes::Sparse(x) => crate::maps_sparse_scalar_lookup_map::apart(x, keys) } }
/// (law) two queries that find one entry are equal
pub open spec fn eq_law<K, V, Q: Scalar + Comparable<K>>(m: FzScalarMap<K, V>) -> bool where Q: Eq { match m.map_impl { MapTypes::Hash(x) => crate::maps_hash_map::eq_law::<K, V, Q, LargeCollection, ScalarHasher>(x), MapTypes::Dense(x) => crate::maps_dense_scalar_lookup_map::eq_law::<K, V, Q>(x), MapTypes::Sparse(x) => crate::maps_sparse_scalar_lookup_map::eq_law::<K, V, Q>(x) } }
//@ include disjoint_fns.vsi TY=FzScalarMap; A=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; NQ=K, V, Q; UATTR=; LEM=
/// the representation chosen holds every entry where its lookup goes
pub open spec fn good<K: Scalar, V>(m: FzScalarMap<K, V>) -> bool {
    match m.map_impl {
        MapTypes::Hash(m) => m.entries.wf() && m.entries.hashed(key_hash::<K, V, ScalarHasher>(m.hasher)),
        MapTypes::Dense(m) => crate::maps_dense_scalar_lookup_map::placed(m),
        MapTypes::Sparse(m) => crate::maps_sparse_scalar_lookup_map::placed(m),
    }
}
//@ proof scalar-choice C04,C15
/// extremes of keys in increasing order are the first and the last
pub proof fn lemma_extremes<K: Scalar, V>(d: Seq<(K, V)>, ks: Seq<K>, lo: int, hi: int)
    requires idx_sorted(d), ks.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] ks[i]) == d[i].0, bounds(ks, lo, hi),
    ensures d.len() > 0, lo == d[0].0.idx(), hi == d.last().0.idx(),
{
    let n = d.len() as int;
    let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).idx() == lo;
    let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).idx() == hi;
    lemma_idx_gap(d, 0, i);
    lemma_idx_gap(d, j, n - 1);
    assert(lo <= ks[0].idx() && ks[n - 1].idx() <= hi);
}
pub open spec fn keyed<K, V>(d: Seq<(K, V)>, ks: Seq<K>) -> bool { ks.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] ks[i]) == d[i].0 }
//@ endproof
/// storage used for direct lookup is bounded by the number of entries
pub open spec fn thrifty<K, V>(m: FzScalarMap<K, V>) -> bool {
    match m.map_impl {
        MapTypes::Hash(m) => crate::hash_tables_hash_table::thrifty(m.entries),
        MapTypes::Dense(m) => true,
        MapTypes::Sparse(m) => m.lookup@.len() <= range_cap(m.entries@.len() as int),
    }
}
//@ fn FzScalarMap::new
//@ props C01,C02,C04,C06,C15,C17
//@ rewrite entries.iter().map(|x| x.0) =>> crate::prelude::v_iter_map(entries.iter(), |x| x.0)
//@ rewrite entries.into() =>> crate::utils_dedup::dedupped_from_sorted(entries)
    requires entries@.len() < usize::MAX,
    ensures good(res), deduped(entries@, res.es(), same_idx::<K, V>()),
        thrifty(res), // [C17]
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: core::cmp::Ordering) ensures K::obeys_cmp_spec() ==> o == x.0.cmp_spec(&y.0)
//@ closure 1
|x: &(K, V)| -> (k: K) ensures k == x.0
//@ ghost start
        let ghost src = entries@;
        proof {
            lemma_idx_cmp::<K, V>(); K::laws(); lemma_len0::<(K, V)>(); <LargeCollection as CollectionMagnitude>::laws(); assert(CollectionMagnitude::un(usize::MAX) == usize::MAX);
            assert forall|d: Seq<(K, V)>, ks: Seq<K>, lo: int, hi: int| #[trigger] idx_sorted(d) && keyed(d, ks) && #[trigger] bounds(ks, lo, hi) implies d.len() > 0 && lo == d[0].0.idx() && hi == d.last().0.idx() by { lemma_extremes(d, ks, lo, hi); }
            assert forall|d: Seq<(K, V)>, e: Seq<(K, V)>| #[trigger] deduped(src, d, same_idx::<K, V>()) && #[trigger] permuted(d, e) implies deduped(src, e, same_idx::<K, V>()) by { lemma_deduped_permuted(src, d, e, same_idx::<K, V>()); }
        }
//@ endfn
impl<K, V> Default for FzScalarMap<K, V> {
//@ fn FzScalarMap@Default::default
//@ mode bare
//@ props C04,C15
    ensures res.es().len() == 0,
//@ endfn
}
//@ fn FzScalarMap@From::from
//@ mode free
//@ rename from_array
//@ props C02,C15,C16,C17
//@ rewrite Vec::from(entries) =>> crate::prelude::VStore::v_into_vec(entries)
    requires N < usize::MAX,
    ensures good(res), deduped(entries@, res.es(), same_idx::<K, V>()),
        thrifty(res), // [C17]
//@ endfn
//@ fn FzScalarMap@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C15,C16,C17
//@ rewrite iter.into_iter().collect() =>> crate::prelude::v_collect(iter)
    requires crate::prelude::collected(iter).len() < usize::MAX,
    ensures good(res), deduped(crate::prelude::collected(iter), res.es(), same_idx::<K, V>()),
        thrifty(res), // [C17]
//@ endfn
}
