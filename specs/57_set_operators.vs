pub mod ops_scan {
//@ module inline_sets::inline_scan_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineScanSet; N=scan; T=T
}
pub mod ops_dense {
//@ module inline_sets::inline_dense_scalar_lookup_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineDenseScalarLookupSet; N=dense; T=T
}
pub mod ops_sparse {
//@ module inline_sets::inline_sparse_scalar_lookup_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineSparseScalarLookupSet; N=sparse; T=T
}
pub mod ops_eytz {
//@ module inline_sets::inline_eytzinger_search_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineEytzingerSearchSet; N=eytz; T=T
}
pub mod ops_hash {
//@ module inline_sets::inline_hash_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineHashSet; N=hash; T=T
}
pub mod ops_hash_nc {
//@ module inline_sets::inline_hash_set_no_collisions
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=InlineHashSetNoCollisions; N=hash_nc; T=T
}
pub mod ops_fz_scalar {
//@ module fz_sets::fz_scalar_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=FzScalarSet; N=fz_scalar; T=T
}
pub mod ops_fz_ordered {
//@ module fz_sets::fz_ordered_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=FzOrderedSet; N=fz_ordered; T=T
}
pub mod ops_fz_hash {
//@ module fz_sets::fz_hash_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=FzHashSet; N=fz_hash; T=T
}
pub mod ops_fz_string {
//@ module fz_sets::fz_string_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::hashbrown::{HashSet, cloned_set};
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
use crate::traits_set_ops::*;
use crate::query::*;
use crate::traits_collection_magnitude::*;
//@ include set_operators.vsi TY=FzStringSet; N=fz_string; T=Box<str>
}
