//@ module traits::map_query
/// The crate's lookup traits on the map and set types of std and hashbrown.
pub mod foreign {
use vstd::prelude::*;
use crate::query::*;
use crate::set_traits::{SetQuery, SetExtras};
//@ include foreign_map.vsi TY=StdHashMap; SRC=std.HashMap; LEN=std.HashMap
//@ include foreign_map.vsi TY=StdBTreeMap; SRC=std.BTreeMap; LEN=std.BTreeMap
//@ include foreign_map.vsi TY=HashbrownHashMap; SRC=hashbrown.HashMap; LEN=hashbrown.HashMap
//@ include foreign_set.vsi TY=StdHashSet; SRC=std.HashSet; LEN=std.HashSet
//@ include foreign_set.vsi TY=StdBTreeSet; SRC=std.BTreeSet; LEN=std.BTreeSet
//@ include foreign_set.vsi TY=HashbrownHashSet; SRC=hashbrown.HashSet; LEN=hashbrown.HashSet
}
