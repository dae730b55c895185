//@ module maps::scan_map
pub mod maps_scan_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use vstd::std_specs::cmp::*;
//@ type ScanMap
//@ include scan.vsi TY=ScanMap; E=self.entries
//@ include common_iter.vsi TY=ScanMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=ScanMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: ?Sized + Equivalent<K>>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C01; QOK=one_run(self.entries@, everywhere(), by_eqv::<K, Q>(key)); AT=found(self.entries@, everywhere(), by_eqv::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=ScanMap; A=<K, V>; GQ=<K, V, Q: ?Sized + Equivalent<K>>; NQ=K, V, Q; UATTR=//@ attr #[verifier::external_body]; HIT=key.eqv(&m.entries@[i].0)
//@ fn ScanMap::new
//@ props C02,C12,C15
    ensures K::obeys_eq_spec() ==> deduped(entries@, res.entries@, same_key::<K, V>()),
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: bool) ensures K::obeys_eq_spec() ==> o == same_key::<K, V>()(*x, *y)
//@ ghost start
        proof { assert(want(same_key::<K, V>())); }
//@ endfn
//@ fn ScanMap::from_dedupped
//@ props C02,C12,C15
    ensures res.entries@ == entries.inner@,
//@ endfn
impl<K, V> Default for ScanMap<K, V> {
//@ fn ScanMap@Default::default
//@ mode bare
//@ props C12,C15
//@ rewrite Box::default() =>> crate::prelude::v_empty_box()
    ensures res.entries@.len() == 0,
//@ endfn
}
}
//@ module inline_maps::inline_scan_map
pub mod inline_maps_inline_scan_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use vstd::std_specs::cmp::*;
//@ type InlineScanMap
//@ include scan.vsi TY=InlineScanMap; E=self.entries
//@ include common_iter.vsi TY=InlineScanMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=InlineScanMap; A=<K, V, SZ>; GL=<K, V, const SZ: usize>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C12; QOK=one_run(self.entries@, everywhere(), by_eqv::<K, Q>(key)); AT=found(self.entries@, everywhere(), by_eqv::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=InlineScanMap; A=<K, V, SZ>; GQ=<K, V, Q: ?Sized + Equivalent<K>, const SZ: usize>; NQ=K, V, Q, SZ; UATTR=//@ attr #[verifier::external_body]; HIT=key.eqv(&m.entries@[i].0)
//@ fn InlineScanMap::new
//@ props C02,C12,C15
    ensures K::obeys_eq_spec() ==> deduped(entries@, res.entries@, same_key::<K, V>()),
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: bool) ensures K::obeys_eq_spec() ==> o == same_key::<K, V>()(*x, *y)
//@ ghost start
        proof { assert(want(same_key::<K, V>())); }
//@ endfn
//@ fn InlineScanMap::new_raw
//@ props C12
    ensures res.entries@ == dedupped_entries@,
//@ endfn
}
