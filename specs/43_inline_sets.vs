//@ module inline_sets::inline_scan_set
pub mod inline_sets_inline_scan_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_scan_map::InlineScanMap;
//@ type InlineScanSet
//@ include set_common.vsi TY=InlineScanSet; A=<T, SZ>; GL=<T, const SZ: usize>; GQ=<T, Q: ?Sized + Equivalent<T>, const SZ: usize>; F=entries; P=C01; HIT=value.eqv(&self.all()[i])
}
//@ module inline_sets::inline_dense_scalar_lookup_set
pub mod inline_sets_inline_dense_scalar_lookup_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_dense_scalar_lookup_map::InlineDenseScalarLookupMap;
//@ type InlineDenseScalarLookupSet
//@ include set_common.vsi TY=InlineDenseScalarLookupSet; A=<T, SZ>; GL=<T, const SZ: usize>; GQ=<T, Q: Scalar + Comparable<T>, const SZ: usize>; F=entries; P=C04; HIT=i == self.map.pos(value.idx())
}
//@ module inline_sets::inline_sparse_scalar_lookup_set
pub mod inline_sets_inline_sparse_scalar_lookup_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_sparse_scalar_lookup_map::InlineSparseScalarLookupMap;
//@ type InlineSparseScalarLookupSet
//@ include set_common.vsi TY=InlineSparseScalarLookupSet; A=<T, SZ, LTSZ, CM>; GL=<T, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; GQ=<T, Q: Scalar + Comparable<T>, const SZ: usize, const LTSZ: usize, CM: CollectionMagnitude>; F=entries; P=C04; HIT=i == self.map.pos(value.idx())
}
//@ module inline_sets::inline_hash_set
pub mod inline_sets_inline_hash_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_hash_map::InlineHashMap;
//@ type InlineHashSet
//@ include set_common.vsi TY=InlineHashSet; A=<T, SZ, NHS, CM, H>; GL=<T, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H>; GQ=<T, Q: ?Sized + Equivalent<T>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; F=entries.entries; P=C05; HIT=value.eqv(&self.all()[i])
}
//@ module inline_sets::inline_hash_set_no_collisions
pub mod inline_sets_inline_hash_set_no_collisions {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_hash_map_no_collisions::InlineHashMapNoCollisions;
//@ type InlineHashSetNoCollisions
//@ include set_common.vsi TY=InlineHashSetNoCollisions; A=<T, SZ, NHS, CM, H>; GL=<T, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H>; GQ=<T, Q: ?Sized + Equivalent<T>, const SZ: usize, const NHS: usize, CM: CollectionMagnitude, H: Hasher<Q>>; F=entries.entries; P=C05; HIT=value.eqv(&self.all()[i])
}
//@ module inline_sets::inline_eytzinger_search_set
pub mod inline_sets_inline_eytzinger_search_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::prelude::*;
use crate::query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators_plain::*;
use crate::traits_collection_magnitude::*;
use crate::hashers_bridge::*;
use crate::inline_maps_inline_eytzinger_search_map::InlineEytzingerSearchMap;
//@ type InlineEytzingerSearchSet
//@ include set_common.vsi TY=InlineEytzingerSearchSet; A=<T, SZ>; GL=<T, const SZ: usize>; GQ=<T, Q: ?Sized + Comparable<T>, const SZ: usize>; F=entries; P=C03; HIT=value.cmpv(&self.all()[i]) == Ordering::Equal
}
