//@ module maps::dense_scalar_lookup_map
pub mod maps_dense_scalar_lookup_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use vstd::std_specs::cmp::*;
//@ type DenseScalarLookupMap
//@ include dense.vsi TY=DenseScalarLookupMap; G=<K, V>; A=<K, V>; GS=<K: Scalar, V>; GQ=<K: Scalar, V, Q: Scalar>
//@ include common_iter.vsi TY=DenseScalarLookupMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=DenseScalarLookupMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C04; QOK=self.wf(); AT=value_at(self.entries@, self.pos(key.idx())); KT=K
//@ include disjoint.vsi TY=DenseScalarLookupMap; A=<K, V>; GQ=<K, V, Q: Scalar + Comparable<K>>; NQ=K, V, Q; UATTR=//@ attr #[verifier::external_body]; HIT=0 <= i < m.entries@.len() && m.pos(key.idx()) == i
//@ fn DenseScalarLookupMap::new
//@ props C02,C04,C06,C15
    ensures res is Ok ==> placed(res->Ok_0) && deduped(entries@, res->Ok_0.entries@, same_idx::<K, V>()),
        // refused exactly when the distinct keys are not contiguous
        exists|d: Seq<(K, V)>| idx_sorted(d) && #[trigger] deduped(entries@, d, same_idx::<K, V>())
            && (res is Ok) == (d.len() == 0 || d[d.len() - 1].0.idx() - d[0].0.idx() == d.len() - 1),
//@ ghost start
        proof { lemma_idx_cmp::<K, V>(); K::laws(); lemma_len0::<(K, V)>(); }
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: core::cmp::Ordering) ensures K::obeys_cmp_spec() ==> o == x.0.cmp_spec(&y.0)
//@ endfn
//@ fn DenseScalarLookupMap::from_sorted_and_dedupped
//@ props C02,C04,C06,C15
    requires entries.inner@.len() > 0, idx_sorted(entries.inner@),
        entries.inner@.last().0.idx() - entries.inner@[0].0.idx() == entries.inner@.len() - 1,
    ensures res.entries@ == entries.inner@, placed(res),
//@ ghost start
        proof { lemma_idx_dense(entries.inner@); }
//@ endfn
impl<K, V> Default for DenseScalarLookupMap<K, V> {
//@ fn DenseScalarLookupMap@Default::default
//@ mode bare
//@ props C04,C15
    ensures res.entries@.len() == 0, res.wf(),
//@ endfn
}
}
//@ module inline_maps::inline_dense_scalar_lookup_map
pub mod inline_maps_inline_dense_scalar_lookup_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
//@ type InlineDenseScalarLookupMap
//@ include dense.vsi TY=InlineDenseScalarLookupMap; G=<K, V, const SZ: usize>; A=<K, V, SZ>; GS=<K: Scalar, V, const SZ: usize>; GQ=<K: Scalar, V, Q: Scalar, const SZ: usize>
//@ include common_iter.vsi TY=InlineDenseScalarLookupMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=InlineDenseScalarLookupMap; A=<K, V, SZ>; GL=<K, V, const SZ: usize>; GQ=<K, V, Q: Scalar + Comparable<K>, const SZ: usize>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C12,C04; QOK=self.wf(); AT=value_at(self.entries@, self.pos(key.idx())); KT=K
//@ include disjoint.vsi TY=InlineDenseScalarLookupMap; A=<K, V, SZ>; GQ=<K, V, Q: Scalar + Comparable<K>, const SZ: usize>; NQ=K, V, Q, SZ; UATTR=//@ attr #[verifier::external_body]; HIT=0 <= i < m.entries@.len() && m.pos(key.idx()) == i
//@ fn InlineDenseScalarLookupMap::new_raw
//@ props C12
    ensures res.entries@ == sorted_and_dedupped_entries@, res.min == min, res.max == max,
//@ endfn
}
