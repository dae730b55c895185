//@ module maps::sparse_scalar_lookup_map
pub mod maps_sparse_scalar_lookup_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use vstd::std_specs::cmp::*;
//@ type SparseScalarLookupMap
//@ include sparse.vsi TY=SparseScalarLookupMap; G=<K, V>; A=<K, V>; GS=<K: Scalar, V>; GQ=<K: Scalar, V, Q: Scalar>; UN1=; UN2= as int; LAWS=axiom_usize_identity_conversions();
//@ include common_iter.vsi TY=SparseScalarLookupMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=SparseScalarLookupMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C04; QOK=self.wf(); AT=value_at(self.entries@, self.pos(key.idx())); KT=K
//@ include disjoint.vsi TY=SparseScalarLookupMap; A=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; NQ=K, V, Q; UATTR=//@ attr #[verifier::external_body]; HIT=0 <= i < m.entries@.len() && m.pos(key.idx()) == i
/// the lookup table spans the keys and no more
pub open spec fn tight<K: Scalar, V>(m: SparseScalarLookupMap<K, V>) -> bool {
    m.lookup@.len() == if m.entries@.len() == 0 { 0 } else { m.entries@.last().0.idx() - m.entries@[0].0.idx() + 1 }
}
//@ fn SparseScalarLookupMap::new
//@ props C02,C04,C06,C15,C17
    requires forall|i: int, j: int| 0 <= i < entries@.len() && 0 <= j < entries@.len() ==> (#[trigger] entries@[i]).0.idx() - (#[trigger] entries@[j]).0.idx() < usize::MAX,
    ensures placed(res), deduped(entries@, res.entries@, same_idx::<K, V>()), idx_sorted(res.entries@),
        tight(res), // [C17]
//@ ghost start
        proof { lemma_idx_cmp::<K, V>(); K::laws(); lemma_len0::<(K, V)>();
            assert forall|d: Seq<(K, V)>| #[trigger] deduped(entries@, d, same_idx::<K, V>()) && d.len() > 0 implies d.last().0.idx() - d[0].0.idx() < usize::MAX by {
                lemma_deduped_from(entries@, d, same_idx::<K, V>());
            }
        }
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: core::cmp::Ordering) ensures K::obeys_cmp_spec() ==> o == x.0.cmp_spec(&y.0)
//@ endfn
/// the lookup table once the first n entries are in it
pub open spec fn looked<K: Scalar, V>(t: Seq<usize>, e: Seq<(K, V)>, min: usize, n: int) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]) <= n && (t[k] > 0 ==> e[t[k] - 1].0.idx() == min + k)
    &&& forall|j: int| 0 <= j < n ==> t[(#[trigger] e[j]).0.idx() - min] == j + 1
}
//@ fn SparseScalarLookupMap::from_sorted_and_dedupped
//@ props C02,C04,C06,C15,C17
    requires entries.inner@.len() > 0, idx_sorted(entries.inner@), entries.inner@.last().0.idx() - entries.inner@[0].0.idx() < usize::MAX,
    ensures res.entries@ == entries.inner@, placed(res),
        tight(res), // [C17]
//@ loop 0
            invariant
                it0.seq() == entries.inner@.as_ref(), __enum0 == it0.index(), entries.inner@.len() > 0, entries.inner@.len() <= usize::MAX, idx_sorted(entries.inner@),
                min == entries.inner@[0].0.idx(), max == entries.inner@.last().0.idx(), count == max - min + 1, lookup@.len() == count,
                looked(lookup@, entries.inner@, min, __enum0 as int),
//@ endfn
impl<K: Scalar, V> Default for SparseScalarLookupMap<K, V> {
//@ fn SparseScalarLookupMap@Default::default
//@ mode bare
//@ props C04,C15,C17
    ensures res.entries@.len() == 0, res.max < res.min,
        tight(res), // [C17]
//@ endfn
}
}
//@ module inline_maps::inline_sparse_scalar_lookup_map
pub mod inline_maps_inline_sparse_scalar_lookup_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ type InlineSparseScalarLookupMap
//@ include sparse.vsi TY=InlineSparseScalarLookupMap; G=<K, V, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; A=<K, V, SZ, LTSZ, CM>; GS=<K: Scalar, V, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; GQ=<K: Scalar, V, Q: Scalar, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; UN1=; UN2=.un(); LAWS=CM::laws();
//@ include common_iter.vsi TY=InlineSparseScalarLookupMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=InlineSparseScalarLookupMap; A=<K, V, SZ, LTSZ, CM>; GL=<K, V, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; GQ=<K, V, Q: Scalar + Comparable<K>, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C12,C04; QOK=self.wf(); AT=value_at(self.entries@, self.pos(key.idx())); KT=K
//@ include disjoint.vsi TY=InlineSparseScalarLookupMap; A=<K, V, SZ, LTSZ, CM>; GQ=<K, V, Q: Scalar + Comparable<K>, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; NQ=K, V, Q, SZ, LTSZ, CM; UATTR=//@ attr #[verifier::external_body]; HIT=0 <= i < m.entries@.len() && m.pos(key.idx()) == i
//@ fn InlineSparseScalarLookupMap::new_raw
//@ props C12
    ensures res.entries@ == sorted_and_dedupped_entries@, res.lookup@ == lookup@, res.min == min, res.max == max,
//@ endfn
}
