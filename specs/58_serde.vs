/// serde as the crate sees it (trusted: dependency). A serializer of maps records the entries it is given, in order, and the announced length;
/// a deserializer hands over the entries of its input one by one.
pub mod serde {
use vstd::prelude::*;
/// a value in the serializer's data model
#[verifier::external_body]
pub struct Data { _p: () }
/// what serialising t writes
pub uninterp spec fn data_of<T: ?Sized>(t: &T) -> Data;
pub trait Serialize {}
pub trait Deserialize<'de>: Sized {}
impl Serialize for Box<str> {}
impl<'de> Deserialize<'de> for Box<str> {}
pub trait SerializeMap: Sized {
    type Ok; type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn log(&self) -> Seq<(Data, Data)>;
    /// the finished output is a map announced as `len` entries holding `log`
    spec fn wrote(ok: Self::Ok, len: Option<usize>, log: Seq<(Data, Data)>) -> bool;
    fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).announced() == old(self).announced() && final(self).log() == old(self).log().push((data_of(key), data_of(value)));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0, self.announced(), self.log());
}
pub trait SerializeSeq: Sized {
    type Ok; type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn log(&self) -> Seq<Data>;
    spec fn wrote(ok: Self::Ok, len: Option<usize>, log: Seq<Data>) -> bool;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).announced() == old(self).announced() && final(self).log() == old(self).log().push(data_of(value));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0, self.announced(), self.log());
}
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>) ensures r is Ok ==> r->Ok_0.announced() == len && r->Ok_0.log().len() == 0;
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>) ensures r is Ok ==> r->Ok_0.announced() == len && r->Ok_0.log().len() == 0;
}
/// what writing the entries out gives
pub open spec fn rows<K, V>(e: Seq<(K, V)>) -> Seq<(Data, Data)> { Seq::new(e.len(), |i: int| (data_of(&e[i].0), data_of(&e[i].1))) }
pub open spec fn row<T>(e: Seq<T>) -> Seq<Data> { Seq::new(e.len(), |i: int| data_of(&e[i])) }
pub trait MapAccess<'de>: Sized {
    type Error;
    /// the entries still in the input
    spec fn coming<K, V>(&self) -> Seq<(K, V)>;
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_entry<K: Deserialize<'de>, V: Deserialize<'de>>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        ensures r is Ok ==> match r->Ok_0 {
            Some(x) => old(self).coming::<K, V>().len() > 0 && x == old(self).coming::<K, V>()[0] && final(self).coming::<K, V>() == old(self).coming::<K, V>().drop_first(),
            None => old(self).coming::<K, V>().len() == 0,
        };
}
pub trait SeqAccess<'de>: Sized {
    type Error;
    spec fn coming<T>(&self) -> Seq<T>;
    fn size_hint(&self) -> (r: Option<usize>);
    fn next_element<T: Deserialize<'de>>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures r is Ok ==> match r->Ok_0 {
            Some(x) => old(self).coming::<T>().len() > 0 && x == old(self).coming::<T>()[0] && final(self).coming::<T>() == old(self).coming::<T>().drop_first(),
            None => old(self).coming::<T>().len() == 0,
        };
}
/// a Visitor that accepts a map / a sequence: what it makes of the input
pub trait MapVisiting<'de>: Sized {
    type Value;
    spec fn fits_map<M: MapAccess<'de>>(map: M) -> bool;
    spec fn from_map<M: MapAccess<'de>>(map: M, value: Self::Value) -> bool;
    fn visit_map<M: MapAccess<'de>>(self, map: M) -> (res: Result<Self::Value, M::Error>)
        requires Self::fits_map(map),
        ensures res is Ok ==> Self::from_map(map, res->Ok_0);
}
pub trait SeqVisiting<'de>: Sized {
    type Value;
    spec fn fits_seq<M: SeqAccess<'de>>(seq: M) -> bool;
    spec fn from_seq<M: SeqAccess<'de>>(seq: M, value: Self::Value) -> bool;
    fn visit_seq<M: SeqAccess<'de>>(self, seq: M) -> (res: Result<Self::Value, M::Error>)
        requires Self::fits_seq(seq),
        ensures res is Ok ==> Self::from_seq(seq, res->Ok_0);
}
/// a deserializer calls the visitor with an access to its input
pub trait Deserializer<'de>: Sized {
    type Error;
    type MA: MapAccess<'de>;
    type SA: SeqAccess<'de>;
    spec fn map_of(&self) -> Self::MA;
    spec fn seq_of(&self) -> Self::SA;
    fn deserialize_map<V: MapVisiting<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        requires V::fits_map(self.map_of()),
        ensures r is Ok ==> V::from_map(self.map_of(), r->Ok_0);
    fn deserialize_seq<V: SeqVisiting<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        requires V::fits_seq(self.seq_of()),
        ensures r is Ok ==> V::from_seq(self.seq_of(), r->Ok_0);
}
//@ proof round-trip C18
/// Reading back a map's own entries (no two under one key) gives a map with exactly those entries.
pub proof fn theorem_round_trip<T>(e: Seq<T>, d: Seq<T>, same: spec_fn(T, T) -> bool)
    requires crate::perm::distinct(e, same), crate::perm::deduped(e, d, same),
    ensures crate::perm::permuted(e, d), d.len() == e.len(),
{
    use crate::perm::*;
    let idx = choose|idx: Seq<int>| dedup_by(e, d, same, idx);
    let n = e.len() as int;
    assert forall|i: int| 0 <= i < n implies idx.contains(i) by {
        assert forall|j: int| i < j < e.len() implies !same(e[i], #[trigger] e[j]) by {}
        assert(is_last(e, same, i));
    }
    assert(idx.no_duplicates()) by { assert forall|k: int, l: int| 0 <= k < idx.len() && 0 <= l < idx.len() && k != l implies idx[k] != idx[l] by { if k < l { assert(idx[k] != idx[l]); } else { assert(idx[l] != idx[k]); } } }
    let r = vstd::set_lib::set_int_range(0, n);
    assert(idx.to_set() =~= r);
    vstd::set_lib::lemma_int_range(0, n);
    idx.unique_seq_to_set();
    let q = Seq::new(n as nat, |i: int| choose|k: int| 0 <= k < idx.len() && idx[k] == i);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] q[i] < n && idx[q[i]] == i by { assert(idx.contains(i)); }
    assert forall|k: int| 0 <= k < n implies #[trigger] q[idx[k]] == k by { assert(idx[q[idx[k]]] == idx[k]); }
    assert(permuted_by(e, d, idx, q));
}
//@ endproof
}
pub mod ser_maps_scan_map {
//@ module maps::scan_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::maps_scan_map::*;
//@ include ser_map.vsi TY=ScanMap; E=self_.entries@
}
pub mod ser_maps_dense_scalar_lookup_map {
//@ module maps::dense_scalar_lookup_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::maps_dense_scalar_lookup_map::*;
//@ include ser_map.vsi TY=DenseScalarLookupMap; E=self_.entries@
}
pub mod ser_maps_sparse_scalar_lookup_map {
//@ module maps::sparse_scalar_lookup_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::maps_sparse_scalar_lookup_map::*;
//@ include ser_map.vsi TY=SparseScalarLookupMap; E=self_.entries@
}
pub mod ser_maps_eytzinger_search_map {
//@ module maps::eytzinger_search_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::maps_eytzinger_search_map::*;
//@ include ser_map.vsi TY=EytzingerSearchMap; E=self_.entries@
}
pub mod ser_maps_hash_map {
//@ module maps::hash_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::maps_hash_map::*;
//@ include ser_map.vsi TY=HashMap; E=self_.entries.entries@
}
pub mod ser_inline_maps_inline_scan_map {
//@ module inline_maps::inline_scan_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_scan_map::*;
//@ include ser_map.vsi TY=InlineScanMap; E=self_.entries@
}
pub mod ser_inline_maps_inline_dense_scalar_lookup_map {
//@ module inline_maps::inline_dense_scalar_lookup_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_dense_scalar_lookup_map::*;
//@ include ser_map.vsi TY=InlineDenseScalarLookupMap; E=self_.entries@
}
pub mod ser_inline_maps_inline_sparse_scalar_lookup_map {
//@ module inline_maps::inline_sparse_scalar_lookup_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_sparse_scalar_lookup_map::*;
//@ include ser_map.vsi TY=InlineSparseScalarLookupMap; E=self_.entries@
}
pub mod ser_inline_maps_inline_eytzinger_search_map {
//@ module inline_maps::inline_eytzinger_search_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_eytzinger_search_map::*;
//@ include ser_map.vsi TY=InlineEytzingerSearchMap; E=self_.entries@
}
pub mod ser_inline_maps_inline_hash_map {
//@ module inline_maps::inline_hash_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_hash_map::*;
//@ include ser_map.vsi TY=InlineHashMap; E=self_.entries.entries@
}
pub mod ser_inline_maps_inline_hash_map_no_collisions {
//@ module inline_maps::inline_hash_map_no_collisions
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_maps_inline_hash_map_no_collisions::*;
//@ include ser_map.vsi TY=InlineHashMapNoCollisions; E=self_.entries.entries@
}
pub mod ser_fz_maps_fz_scalar_map {
//@ module fz_maps::fz_scalar_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_scalar_map::*;
//@ include ser_map.vsi TY=FzScalarMap; E=self_.es()
use core::marker::PhantomData;
//@ include de_map.vsi VIS=MapVisitor; G=K: Deserialize<'de> + Scalar, V: Deserialize<'de>; VA=K, V; DA=K, V; TY=FzScalarMap; A=K, V; K=K; MADE=good(value) && deduped(map.coming::<K, V>(), value.es(), same_idx::<K, V>())
}
pub mod ser_fz_maps_fz_ordered_map {
//@ module fz_maps::fz_ordered_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_ordered_map::*;
//@ include ser_map.vsi TY=FzOrderedMap; E=self_.es()
use core::marker::PhantomData;
use crate::eytz_query::*;
//@ include de_map.vsi VIS=MapVisitor; G=K: Deserialize<'de> + Ord, V: Deserialize<'de>; VA=K, V; DA=K, V; TY=FzOrderedMap; A=K, V; K=K; MADE=lawful_ord::<K, V>() ==> good(value) && deduped(map.coming::<K, V>(), value.es(), eq_by(key_cmp::<K, V>()))
}
pub mod ser_fz_maps_fz_hash_map {
//@ module fz_maps::fz_hash_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_hash_map::*;
//@ include ser_map.vsi TY=FzHashMap; E=self_.es()
use core::marker::PhantomData;
use crate::hashers_bridge::*;
use crate::hashing::*;
//@ include de_map.vsi VIS=MapVisitor; G=K: Deserialize<'de> + Hash + Eq, V: Deserialize<'de>, BH: BuildHasher + Default; VA=K, V, BH; DA=K, V, BH; TY=FzHashMap; A=K, V, BH; K=K; MADE=good(value, value.map_impl.hasher.bh) && (lawful_key::<K, V, BridgeHasher<BH>>(value.map_impl.hasher) ==> deduped(map.coming::<K, V>(), value.es(), same_key::<K, V>()))
}
pub mod ser_fz_maps_fz_string_map {
//@ module fz_maps::fz_string_map
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_string_map::*;
//@ include ser_map.vsi TY=FzStringMap; E=self_.es()
use core::marker::PhantomData;
use crate::strings::*;
//@ include de_map.vsi VIS=StrMapVisitor; G=V: Deserialize<'de>, BH: BuildHasher + Default; VA=V, BH; DA=V, crate::hashing::DefaultBuildHasher; TY=FzStringMap; A=Box<str>, V, BH; K=Box<str>; MADE=good(value, bh_of(value)) && built(map.coming::<Box<str>, V>(), es_of(value))
}
pub mod ser_inline_sets_inline_scan_set {
//@ module inline_sets::inline_scan_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_scan_set::*;
//@ include ser_seq.vsi TY=InlineScanSet; E=self_.all()
}
pub mod ser_inline_sets_inline_dense_scalar_lookup_set {
//@ module inline_sets::inline_dense_scalar_lookup_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_dense_scalar_lookup_set::*;
//@ include ser_seq.vsi TY=InlineDenseScalarLookupSet; E=self_.all()
}
pub mod ser_inline_sets_inline_sparse_scalar_lookup_set {
//@ module inline_sets::inline_sparse_scalar_lookup_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_sparse_scalar_lookup_set::*;
//@ include ser_seq.vsi TY=InlineSparseScalarLookupSet; E=self_.all()
}
pub mod ser_inline_sets_inline_eytzinger_search_set {
//@ module inline_sets::inline_eytzinger_search_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_eytzinger_search_set::*;
//@ include ser_seq.vsi TY=InlineEytzingerSearchSet; E=self_.all()
}
pub mod ser_inline_sets_inline_hash_set {
//@ module inline_sets::inline_hash_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_hash_set::*;
//@ include ser_seq.vsi TY=InlineHashSet; E=self_.all()
}
pub mod ser_inline_sets_inline_hash_set_no_collisions {
//@ module inline_sets::inline_hash_set_no_collisions
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::inline_sets_inline_hash_set_no_collisions::*;
//@ include ser_seq.vsi TY=InlineHashSetNoCollisions; E=self_.all()
}
pub mod ser_fz_sets_fz_scalar_set {
//@ module fz_sets::fz_scalar_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_sets_fz_scalar_set::*;
//@ include ser_seq.vsi TY=FzScalarSet; E=self_.all()
use crate::unit_entries::*;
use crate::fz_maps_fz_scalar_map::{FzScalarMap, good};
use crate::map_models::*;
//@ include de_seq.vsi VIS=SetVisitor; G=T: Deserialize<'de> + Scalar; VA=T; DA=T; TY=FzScalarSet; A=T; T=T; MADE=good(value.map) && deduped(seq.coming::<T>(), value.all(), key_same_idx::<T>()); HINT=lemma_all_units(src, same_idx::<T, ()>(), key_same_idx::<T>());
}
pub mod ser_fz_sets_fz_ordered_set {
//@ module fz_sets::fz_ordered_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_sets_fz_ordered_set::*;
//@ include ser_seq.vsi TY=FzOrderedSet; E=self_.all()
use crate::unit_entries::*;
use crate::fz_maps_fz_ordered_map::{FzOrderedMap, good};
use crate::eytz_query::*;
use crate::map_models::*;
//@ include de_seq.vsi VIS=SetVisitor; G=T: Deserialize<'de> + Ord; VA=T; DA=T; TY=FzOrderedSet; A=T; T=T; MADE=lawful_ord::<T, ()>() ==> good(value.map) && deduped(seq.coming::<T>(), value.all(), key_same_ord::<T>()); HINT=lemma_all_units(src, eq_by(key_cmp::<T, ()>()), key_same_ord::<T>());
}
pub mod ser_fz_sets_fz_hash_set {
//@ module fz_sets::fz_hash_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_sets_fz_hash_set::*;
//@ include ser_seq.vsi TY=FzHashSet; E=self_.all()
use crate::unit_entries::*;
use crate::hashers_bridge::*;
use crate::hashing::*;
use crate::map_models::*;
use crate::fz_maps_fz_hash_map::{FzHashMap, good};
//@ include de_seq.vsi VIS=SetVisitor; G=T: Deserialize<'de> + Hash + Eq, BH: BuildHasher + Default; VA=T, BH; DA=T, BH; TY=FzHashSet; A=T, BH; T=T; MADE=good(value.map, value.map.map_impl.hasher.bh) && (lawful_key::<T, (), BridgeHasher<BH>>(value.map.map_impl.hasher) ==> deduped(seq.coming::<T>(), value.all(), key_eq::<T>())); HINT=lemma_all_units(src, same_key::<T, ()>(), key_eq::<T>());
}
pub mod ser_fz_sets_fz_string_set {
//@ module fz_sets::fz_string_set
use vstd::prelude::*;
use core::hash::{Hash, BuildHasher};
use crate::serde::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::iter_specs::*;
use crate::traits_collection_magnitude::*;
use crate::fz_sets_fz_string_set::*;
//@ include ser_seq.vsi TY=FzStringSet; E=self_.all()
use crate::strings::*;
use crate::fz_maps_fz_string_map::{FzStringMap, good, bh_of, es_of};
//@ include de_seq.vsi VIS=StrSetVisitor; G=BH: BuildHasher + Default; VA=BH; DA=BH; TY=FzStringSet; A=Box<str>, BH; T=Box<str>; MADE=good(value.map, bh_of(value.map)) && built_set(seq.coming::<Box<str>>(), firsts(es_of(value.map))); HINT=lemma_all_built_set(src);
}
