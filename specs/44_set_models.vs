/// The inline sets are sets of the elements they iterate, and equality of sets.
pub mod set_models {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::query::*;
use crate::perm::*;
use crate::equality::*;
use crate::map_models::*;
use crate::set_traits::*;
use crate::iter_specs::firsts;
use crate::traits_collection_magnitude::*;
use crate::eytz_query::*;
use vstd::std_specs::cmp::*;
//@ proof set-equality-decides C11
pub open spec fn same_elements<T>(a: Seq<T>, b: Seq<T>, same: spec_fn(T, T) -> bool) -> bool { forall|v: T| holds(a, same, v) == #[trigger] holds(b, same, v) }
/// equality of sets: exactly the same elements (hence independent of which side is asked, and of both implementations)
pub proof fn theorem_set_equality<T, S: SetQuery<T>>(a: Seq<T>, s: S, b: Seq<T>, same: spec_fn(T, T) -> bool)
    requires equivalence(same), distinct(a, same), set_of(s, b, same),
    ensures set_covers(a, s) == same_elements(a, b, same),
{
    if set_covers(a, s) {
        assert forall|i: int| 0 <= i < a.len() implies holds(b, same, #[trigger] a[i]) by { assert(s.has(&a[i])); }
        assert forall|v: T| holds(a, same, v) == #[trigger] holds(b, same, v) by {
            if holds(a, same, v) { let i = choose|i: int| 0 <= i < a.len() && same(#[trigger] a[i], v); let j = choose|j: int| 0 <= j < b.len() && same(#[trigger] b[j], a[i]); assert(same(b[j], v)); }
            if holds(b, same, v) { let j = choose|j: int| 0 <= j < b.len() && same(#[trigger] b[j], v); lemma_onto(a, b, same, j); let i = choose|i: int| 0 <= i < a.len() && same(#[trigger] a[i], b[j]); assert(same(a[i], v)); }
        }
    }
    if same_elements(a, b, same) {
        assert forall|i: int| 0 <= i < a.len() implies holds(b, same, #[trigger] a[i]) by { assert(same(a[i], a[i])); assert(holds(a, same, a[i])); }
        assert forall|i: int| 0 <= i < b.len() implies holds(a, same, #[trigger] b[i]) by { assert(same(b[i], b[i])); assert(holds(b, same, b[i])); }
        lemma_pigeon(a, b, same);
        lemma_pigeon(b, a, same);
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies s.has(&a[i]) by { assert(s.has(&a[i]) == holds(b, same, a[i])); }
    }
}
//@ endproof
//@ proof inline-sets-are-sets C09,C10,C11,C12,C16
pub proof fn lemma_set_of<T, M: MapQuery<T, ()>, S: SetQuery<T>>(m: M, s: S, e: Seq<(T, ())>, same: spec_fn(T, T) -> bool)
    requires equivalence(same), models(m, e, same), s.lenv() == e.len(), forall|v: T| m.qok(&v),
        forall|v: T| #[trigger] s.has(&v) == (m.at_key(&v) is Some), forall|v: T| #[trigger] s.qok(&v) == m.qok(&v),
    ensures set_of(s, firsts(e), same),
{
    assert forall|v: T| #[trigger] s.qok(&v) by { assert(m.qok(&v)); }
    assert forall|v: T| #[trigger] s.has(&v) == holds(firsts(e), same, v) by { assert(m.at_key(&v) is Some == holds(firsts(e), same, v)); }
}
pub proof fn theorem_inline_scan_set<T: Eq, const SZ: usize>(s: crate::inline_sets_inline_scan_set::InlineScanSet<T, SZ>)
    requires T::obeys_eq_spec(), equivalence(key_eq::<T>()), distinct(s.all(), key_eq::<T>()),
    ensures set_of(s, s.all(), key_eq::<T>()),
{
    theorem_inline_maps_inline_scan_map(s.map);
    lemma_set_of::<T, crate::inline_maps_inline_scan_map::InlineScanMap<T, (), SZ>, crate::inline_sets_inline_scan_set::InlineScanSet<T, SZ>>(s.map, s, s.map.entries@, key_eq::<T>());
}
pub proof fn theorem_inline_dense_scalar_lookup_set<T: Scalar, const SZ: usize>(s: crate::inline_sets_inline_dense_scalar_lookup_set::InlineDenseScalarLookupSet<T, SZ>)
    requires crate::inline_maps_inline_dense_scalar_lookup_map::placed(s.map),
    ensures set_of(s, s.all(), key_same_idx::<T>()),
{
    theorem_inline_maps_inline_dense_scalar_lookup_map(s.map);
    lemma_set_of::<T, crate::inline_maps_inline_dense_scalar_lookup_map::InlineDenseScalarLookupMap<T, (), SZ>, crate::inline_sets_inline_dense_scalar_lookup_set::InlineDenseScalarLookupSet<T, SZ>>(s.map, s, s.map.entries@, key_same_idx::<T>());
}
pub proof fn theorem_inline_sparse_scalar_lookup_set<T: Scalar, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>(s: crate::inline_sets_inline_sparse_scalar_lookup_set::InlineSparseScalarLookupSet<T, SZ, LTSZ, CM>)
    requires crate::inline_maps_inline_sparse_scalar_lookup_map::placed(s.map),
    ensures set_of(s, s.all(), key_same_idx::<T>()),
{
    theorem_inline_maps_inline_sparse_scalar_lookup_map(s.map);
    lemma_set_of::<T, crate::inline_maps_inline_sparse_scalar_lookup_map::InlineSparseScalarLookupMap<T, (), SZ, LTSZ, CM>, crate::inline_sets_inline_sparse_scalar_lookup_set::InlineSparseScalarLookupSet<T, SZ, LTSZ, CM>>(s.map, s, s.map.entries@, key_same_idx::<T>());
}
pub proof fn theorem_inline_hash_set<T: Eq, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<T>>(s: crate::inline_sets_inline_hash_set::InlineHashSet<T, SZ, NHS, CM, H>)
    requires lawful_key::<T, (), H>(s.map.hasher), equivalence(key_eq::<T>()), distinct(s.all(), key_eq::<T>()), s.map.hasher.hok(), s.map.entries.wf(), s.map.entries.hashed(key_hash::<T, (), H>(s.map.hasher)),
    ensures set_of(s, s.all(), key_eq::<T>()),
{
    theorem_inline_maps_inline_hash_map(s.map);
    lemma_set_of::<T, crate::inline_maps_inline_hash_map::InlineHashMap<T, (), SZ, NHS, CM, H>, crate::inline_sets_inline_hash_set::InlineHashSet<T, SZ, NHS, CM, H>>(s.map, s, s.map.entries.entries@, key_eq::<T>());
}
pub proof fn theorem_inline_hash_set_no_collisions<T: Eq, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<T>>(s: crate::inline_sets_inline_hash_set_no_collisions::InlineHashSetNoCollisions<T, SZ, NHS, CM, H>)
    requires lawful_key::<T, (), H>(s.map.hasher), equivalence(key_eq::<T>()), distinct(s.all(), key_eq::<T>()), s.map.hasher.hok(), s.map.entries.wf(), s.map.entries.hashed(key_hash::<T, (), H>(s.map.hasher)),
    ensures set_of(s, s.all(), key_eq::<T>()),
{
    theorem_inline_maps_inline_hash_map_no_collisions(s.map);
    lemma_set_of::<T, crate::inline_maps_inline_hash_map_no_collisions::InlineHashMapNoCollisions<T, (), SZ, NHS, CM, H>, crate::inline_sets_inline_hash_set_no_collisions::InlineHashSetNoCollisions<T, SZ, NHS, CM, H>>(s.map, s, s.map.entries.entries@, key_eq::<T>());
}
pub proof fn theorem_inline_eytzinger_search_set<T: Ord, const SZ: usize>(s: crate::inline_sets_inline_eytzinger_search_set::InlineEytzingerSearchSet<T, SZ>, a: Seq<(T, ())>)
    requires lawful_ord::<T, ()>(), equivalence(key_same_ord::<T>()), strictly_sorted_by(a, key_cmp::<T, ()>()), s.map.entries@ == crate::utils_eytzinger::laid_out(a), a.len() < 0x4000_0000_0000_0000, forall|k: T| #[trigger] lawful_comparison::<T, T>(&k),
    ensures set_of(s, s.all(), key_same_ord::<T>()),
{
    theorem_inline_maps_inline_eytzinger_search_map(s.map, a);
    lemma_set_of::<T, crate::inline_maps_inline_eytzinger_search_map::InlineEytzingerSearchMap<T, (), SZ>, crate::inline_sets_inline_eytzinger_search_set::InlineEytzingerSearchSet<T, SZ>>(s.map, s, s.map.entries@, key_same_ord::<T>());
}
//@ endproof
}
