/// Set elements as the keys of a map to ().
pub mod unit_entries {
use vstd::prelude::*;
use crate::perm::*;
use crate::iter_specs::firsts;
pub open spec fn lifts<T>(same2: spec_fn((T, ()), (T, ())) -> bool, same: spec_fn(T, T) -> bool) -> bool { forall|x: (T, ()), y: (T, ())| #[trigger] same2(x, y) == same(x.0, y.0) }
//@ proof set-construction C02,C12
pub proof fn lemma_units<T>(src: Seq<T>, u: Seq<(T, ())>, e: Seq<(T, ())>, same2: spec_fn((T, ()), (T, ())) -> bool, same: spec_fn(T, T) -> bool)
    requires lifts(same2, same), deduped(u, e, same2), u.len() == src.len(), forall|i: int| 0 <= i < src.len() ==> (#[trigger] u[i]).0 == src[i],
    ensures deduped(src, firsts(e), same),
{
    let idx = choose|idx: Seq<int>| dedup_by(u, e, same2, idx);
    let f = firsts(e);
    assert forall|i: int| 0 <= i < src.len() implies #[trigger] src[i] == u[i].0 by {}
    assert forall|k: int| 0 <= k < f.len() implies f[k] == src[#[trigger] idx[k]] by { assert(e[k] == u[idx[k]]); }
    assert forall|i: int, j: int| #![trigger same(src[i], src[j])] 0 <= i < src.len() && 0 <= j < src.len() implies same(src[i], src[j]) == same2(u[i], u[j]) by {}
    assert forall|i: int| 0 <= i < src.len() implies #[trigger] is_last(src, same, i) == is_last(u, same2, i) by {
        assert forall|j: int| i < j < src.len() implies same(src[i], src[j]) == same2(u[i], u[j]) by {}
        if is_last(u, same2, i) { assert forall|j: int| i < j < src.len() implies !#[trigger] same(src[i], src[j]) by { assert(!same2(u[i], u[j])); } }
        if is_last(src, same, i) { assert forall|j: int| i < j < u.len() implies !#[trigger] same2(u[i], u[j]) by { assert(!same(src[i], src[j])); } }
    }
    assert(dedup_by(src, f, same, idx));
}
/// (for the constructors)
pub proof fn lemma_all_units<T>(src: Seq<T>, same2: spec_fn((T, ()), (T, ())) -> bool, same: spec_fn(T, T) -> bool)
    requires lifts(same2, same),
    ensures forall|u: Seq<(T, ())>, e: Seq<(T, ())>| #[trigger] deduped(u, e, same2) && u.len() == src.len() && (forall|i: int| 0 <= i < src.len() ==> (#[trigger] u[i]).0 == src[i]) ==> deduped(src, firsts(e), same),
{
    assert forall|u: Seq<(T, ())>, e: Seq<(T, ())>| #[trigger] deduped(u, e, same2) && u.len() == src.len() && (forall|i: int| 0 <= i < src.len() ==> (#[trigger] u[i]).0 == src[i]) implies deduped(src, firsts(e), same) by { lemma_units(src, u, e, same2, same); }
}
//@ endproof
}
//@ module fz_sets::fz_scalar_set
pub mod fz_sets_fz_scalar_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::hashing::*;
use crate::eytz_query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::map_models::*;
use crate::unit_entries::*;
use crate::sets_iterators_plain::*;
use crate::hashers_bridge::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_scalar_map::{FzScalarMap, good};
//@ type FzScalarSet
//@ include set_query.vsi TY=FzScalarSet; E=self.map.es(); P=C04; HIT=self.map.hits::<Q>(value, i)
//@ include set_rest.vsi T=T; TY=FzScalarSet; A=<T>; GL=<T>; GQ=<T, Q: Scalar + Comparable<T>>; E=self.map.es(); P=C04; HIT=self.map.hits::<Q>(value, i)
//@ fn FzScalarSet::new
//@ mode free
//@ rename new_set
//@ props C02,C12,C15,C16,C17
//@ rewrite entries.into_iter().map(|x| (x, ())).collect() =>> crate::prelude::v_vec_map(entries, |x| (x, ()))
    requires entries@.len() < usize::MAX,
    ensures good(res.map), deduped(entries@, res.all(), key_same_idx::<T>()),
        crate::fz_maps_fz_scalar_map::thrifty(res.map), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, same_idx::<T, ()>(), key_same_idx::<T>()); }
//@ endfn
//@ fn FzScalarSet@Default::default
//@ mode free
//@ rename set_default
//@ props C12,C15
    ensures res.all().len() == 0,
//@ endfn
//@ fn FzScalarSet@From<FzScalarMap<T,()>>::from
//@ mode free
//@ rename from_map
//@ props C12,C16
    ensures res.map == map,
//@ endfn
//@ fn FzScalarSet@From<[T;N]>::from
//@ mode free
//@ rename from_array
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzScalarMap::from_iter(entries.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_scalar_map::from_iterator(crate::prelude::v_map_array(entries, |x| (x, ()))))
    requires entries@.len() < usize::MAX,
    ensures good(res.map), deduped(entries@, res.all(), key_same_idx::<T>()),
        crate::fz_maps_fz_scalar_map::thrifty(res.map), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, same_idx::<T, ()>(), key_same_idx::<T>()); }
//@ endfn
//@ fn FzScalarSet@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzScalarMap::from_iter(iter.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_scalar_map::from_iterator(crate::prelude::v_map_all(iter, |x| (x, ()))))
    requires crate::prelude::collected(iter).len() < usize::MAX,
    ensures good(res.map), deduped(crate::prelude::collected(iter), res.all(), key_same_idx::<T>()),
        crate::fz_maps_fz_scalar_map::thrifty(res.map), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = crate::prelude::collected(iter);
        proof { lemma_all_units(src, same_idx::<T, ()>(), key_same_idx::<T>()); }
//@ endfn
}
//@ module fz_sets::fz_ordered_set
pub mod fz_sets_fz_ordered_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::hashing::*;
use crate::eytz_query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::map_models::*;
use crate::unit_entries::*;
use crate::sets_iterators_plain::*;
use crate::hashers_bridge::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_ordered_map::{FzOrderedMap, good};
//@ type FzOrderedSet
//@ include set_query.vsi TY=FzOrderedSet; E=self.map.es(); P=C03; HIT=self.map.hits::<Q>(value, i)
//@ include set_rest.vsi T=T; TY=FzOrderedSet; A=<T>; GL=<T>; GQ=<T, Q: ?Sized + Comparable<T>>; E=self.map.es(); P=C03; HIT=self.map.hits::<Q>(value, i)
//@ fn FzOrderedSet::new
//@ mode free
//@ rename new_set
//@ props C02,C12,C15,C16
//@ rewrite entries.into_iter().map(|x| (x, ())).collect() =>> crate::prelude::v_vec_map(entries, |x| (x, ()))
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures (lawful_ord::<T, ()>() ==> good(res.map)), lawful_ord::<T, ()>() ==> deduped(entries@, res.all(), key_same_ord::<T>()),
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, eq_by(key_cmp::<T, ()>()), key_same_ord::<T>()); }
//@ endfn
//@ fn FzOrderedSet@Default::default
//@ mode free
//@ rename set_default
//@ props C12,C15
    ensures res.all().len() == 0,
//@ endfn
//@ fn FzOrderedSet@From<FzOrderedMap<T,()>>::from
//@ mode free
//@ rename from_map
//@ props C12,C16
    ensures res.map == map,
//@ endfn
//@ fn FzOrderedSet@From<[T;N]>::from
//@ mode free
//@ rename from_array
//@ props C02,C12,C15,C16
//@ rewrite Self::from(FzOrderedMap::from_iter(entries.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_ordered_map::from_iterator(crate::prelude::v_map_array(entries, |x| (x, ()))))
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures (lawful_ord::<T, ()>() ==> good(res.map)), lawful_ord::<T, ()>() ==> deduped(entries@, res.all(), key_same_ord::<T>()),
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, eq_by(key_cmp::<T, ()>()), key_same_ord::<T>()); }
//@ endfn
//@ fn FzOrderedSet@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C12,C15,C16
//@ rewrite Self::from(FzOrderedMap::from_iter(iter.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_ordered_map::from_iterator(crate::prelude::v_map_all(iter, |x| (x, ()))))
    requires crate::prelude::collected(iter).len() < 0x4000_0000_0000_0000,
    ensures (lawful_ord::<T, ()>() ==> good(res.map)), lawful_ord::<T, ()>() ==> deduped(crate::prelude::collected(iter), res.all(), key_same_ord::<T>()),
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = crate::prelude::collected(iter);
        proof { lemma_all_units(src, eq_by(key_cmp::<T, ()>()), key_same_ord::<T>()); }
//@ endfn
}
//@ module fz_sets::fz_hash_set
pub mod fz_sets_fz_hash_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::hashing::*;
use crate::eytz_query::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::map_models::*;
use crate::unit_entries::*;
use crate::sets_iterators_plain::*;
use crate::hashers_bridge::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_hash_map::{FzHashMap, good};
//@ type FzHashSet
//@ include set_query.vsi TY=FzHashSet; E=self.map.es(); P=C01; HIT=self.map.hits::<Q>(value, i)
//@ include set_rest.vsi T=T; TY=FzHashSet; A=<T, BH>; GL=<T, BH: BuildHasher>; GQ=<T, Q: ?Sized + Hash + Equivalent<T>, BH: BuildHasher>; E=self.map.es(); P=C01; HIT=self.map.hits::<Q>(value, i)
//@ fn FzHashSet::with_hasher
//@ mode free
//@ rename with_hasher_set
//@ props C02,C12,C15,C16,C17
//@ rewrite entries.into_iter().map(|x| (x, ())).collect() =>> crate::prelude::v_vec_map(entries, |x| (x, ()))
    ensures good(res.map, bh), lawful_key::<T, (), BridgeHasher<BH>>(res.map.map_impl.hasher) ==> deduped(entries@, res.all(), key_eq::<T>()),
        crate::hash_tables_hash_table::thrifty(res.map.map_impl.entries), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, same_key::<T, ()>(), key_eq::<T>()); }
//@ endfn
//@ fn FzHashSet::new
//@ mode free
//@ rename new_set
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::with_hasher =>> with_hasher_set
    ensures good(res.map, res.map.map_impl.hasher.bh), lawful_key::<T, (), BridgeHasher<DefaultBuildHasher>>(res.map.map_impl.hasher) ==> deduped(entries@, res.all(), key_eq::<T>()),
        crate::hash_tables_hash_table::thrifty(res.map.map_impl.entries), // [C17]
//@ endfn
//@ fn FzHashSet@Default::default
//@ mode free
//@ rename set_default
//@ props C12,C15
//@ rewrite FzHashMap::default() =>> crate::fz_maps_fz_hash_map::map_default()
    ensures res.map.es().len() == 0,
//@ endfn
//@ fn FzHashSet@From<FzHashMap<T,(),BH>>::from
//@ mode free
//@ rename from_map
//@ props C12,C16
    ensures res.map == map,
//@ endfn
//@ fn FzHashSet@From<[T;N]>::from
//@ mode free
//@ rename from_array
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzHashMap::from_iter(entries.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_hash_map::from_iterator(crate::prelude::v_map_array(entries, |x| (x, ()))))
    ensures good(res.map, res.map.map_impl.hasher.bh), lawful_key::<T, (), BridgeHasher<BH>>(res.map.map_impl.hasher) ==> deduped(entries@, res.all(), key_eq::<T>()),
        crate::hash_tables_hash_table::thrifty(res.map.map_impl.entries), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_units(src, same_key::<T, ()>(), key_eq::<T>()); }
//@ endfn
//@ fn FzHashSet@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzHashMap::from_iter(iter.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_hash_map::from_iterator(crate::prelude::v_map_all(iter, |x| (x, ()))))
    ensures good(res.map, res.map.map_impl.hasher.bh), lawful_key::<T, (), BridgeHasher<BH>>(res.map.map_impl.hasher) ==> deduped(crate::prelude::collected(iter), res.all(), key_eq::<T>()),
        crate::hash_tables_hash_table::thrifty(res.map.map_impl.entries), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = crate::prelude::collected(iter);
        proof { lemma_all_units(src, same_key::<T, ()>(), key_eq::<T>()); }
//@ endfn
}
//@ module fz_sets::fz_string_set
pub mod fz_sets_fz_string_set {
use vstd::prelude::*;
use core::cmp::Ordering;
use core::hash::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::query::*;
use crate::query::Hasher;
use crate::perm::*;
use crate::strings::*;
use crate::hashing::*;
use crate::iter_specs::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::unit_entries::*;
use crate::sets_iterators_plain::*;
use crate::hashers_bridge::*;
use crate::traits_collection_magnitude::*;
use crate::fz_maps_fz_string_map::{FzStringMap, MapTypes, good, bh_of, es_of};
broadcast use axiom_as_ref;
//@ type FzStringSet
//@ include set_rest.vsi T=Box<str>; TY=FzStringSet; A=<Box<str>, BH>; GL=<BH>; GQ=<Q: AsRef<str>, BH: BuildHasher>; E=self.map.es(); P=C05; HIT=self.map.hits_str(str_of(value), i)
//@ fn FzStringSet@SetIteration::iter
//@ mode free
//@ rename trait_iter
//@ props C16,C08,C12
    ensures fresh(res, self_.all().as_ref()),
//@ endfn
//@ fn FzStringSet::get
//@ props C05,C12,C16
    requires self.map.ok_str(str_of(&value)),
    ensures (res is Some) == (self.map.at_str(str_of(&value)) is Some),
        res is Some ==> exists|i: int| 0 <= i < self.all().len() && *res->Some_0 == #[trigger] self.all()[i] && self.map.hits_str(str_of(&value), i),
//@ ghost start
        proof { assert forall|i: int| 0 <= i < self.map.es().len() implies (#[trigger] self.map.es()[i]).0 == self.all()[i] by {} }
//@ endfn
//@ fn FzStringSet::contains
//@ props C05,C12,C16
    requires self.map.ok_str(str_of(&value)),
    ensures res == (self.map.at_str(str_of(&value)) is Some),
//@ endfn
/// e holds each of the strings of a once
pub open spec fn built_set<A: AsRef<str>>(a: Seq<A>, e: Seq<Box<str>>) -> bool {
    &&& forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> bytes(&e[i]) != bytes(&e[j])
    &&& forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> in_boxes(e, bytes(&a[i]))
    &&& forall|k: int| #![trigger e[k]] 0 <= k < e.len() ==> in_strs(a, bytes(&e[k]))
}
pub open spec fn in_boxes(e: Seq<Box<str>>, b: Seq<u8>) -> bool { exists|k: int| #![trigger e[k]] 0 <= k < e.len() && bytes(&e[k]) == b }
pub open spec fn in_strs<A: AsRef<str>>(a: Seq<A>, b: Seq<u8>) -> bool { exists|k: int| #![trigger a[k]] 0 <= k < a.len() && bytes(&a[k]) == b }
//@ proof string-set-construction C02,C12,C05
pub proof fn lemma_built_set<A: AsRef<str>>(a: Seq<A>, u: Seq<(A, ())>, e: Seq<(Box<str>, ())>)
    requires built(u, e), u.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] u[i]).0 == a[i],
    ensures built_set(a, firsts(e)),
{
    lemma_key_lex::<()>();
    let same = same_str::<()>();
    let f = firsts(e);
    let src = choose|src: Seq<(Box<str>, ())>| boxed(u, src) && #[trigger] deduped(src, e, eq_by(key_lex::<()>()));
    lemma_deduped_distinct(src, e, same);
    assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < f.len() && 0 <= j < f.len() && i != j implies bytes(&f[i]) != bytes(&f[j]) by { assert(!same(e[i], e[j])); }
    let idx = choose|idx: Seq<int>| dedup_by(src, e, same, idx);
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies in_boxes(f, bytes(&a[i])) by {
        assert(u[i].0 == a[i]); assert(bytes(&src[i].0) == bytes(&a[i]));
        let l = last_like(src, same, i);
        lemma_last_like(src, same, i);
        assert(idx.contains(l));
        let k = choose|k: int| 0 <= k < idx.len() && idx[k] == l;
        assert(e[k] == src[l]); assert(bytes(&f[k]) == bytes(&a[i]));
    }
    assert forall|k: int| #![trigger f[k]] 0 <= k < f.len() implies in_strs(a, bytes(&f[k])) by { assert(e[k] == src[idx[k]]); let i = idx[k]; assert(bytes(&src[i].0) == bytes(&u[i].0)); assert(u[i].0 == a[i]); assert(bytes(&a[i]) == bytes(&f[k])); }
}
pub open spec fn last_like<T>(src: Seq<T>, same: spec_fn(T, T) -> bool, i: int) -> int decreases src.len() - i {
    if exists|j: int| i < j < src.len() && same(src[i], #[trigger] src[j]) { let j = choose|j: int| i < j < src.len() && same(src[i], #[trigger] src[j]); if i < j < src.len() { last_like(src, same, j) } else { i } } else { i }
}
pub proof fn lemma_last_like<T>(src: Seq<T>, same: spec_fn(T, T) -> bool, i: int)
    requires 0 <= i < src.len(), equivalence(same),
    ensures i <= last_like(src, same, i) < src.len(), is_last(src, same, last_like(src, same, i)), same(src[i], src[last_like(src, same, i)]),
    decreases src.len() - i,
{
    if exists|j: int| i < j < src.len() && same(src[i], #[trigger] src[j]) {
        let j = choose|j: int| i < j < src.len() && same(src[i], #[trigger] src[j]);
        lemma_last_like(src, same, j);
        assert(same(src[i], src[j]) && same(src[j], src[last_like(src, same, j)]));
    } else { assert(same(src[i], src[i])); }
}
pub proof fn lemma_all_built_set<A: AsRef<str>>(a: Seq<A>)
    ensures forall|u: Seq<(A, ())>, e: Seq<(Box<str>, ())>| #[trigger] built(u, e) && u.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] u[i]).0 == a[i]) ==> built_set(a, firsts(e)),
{
    assert forall|u: Seq<(A, ())>, e: Seq<(Box<str>, ())>| #[trigger] built(u, e) && u.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] u[i]).0 == a[i]) implies built_set(a, firsts(e)) by { lemma_built_set(a, u, e); }
}
//@ endproof
//@ fn FzStringSet::with_hasher
//@ mode free
//@ rename with_hasher_set
//@ props C02,C05,C12,C15,C17
//@ rewrite entries.into_iter().map(|x| (x, ())).collect() =>> crate::prelude::v_vec_map(entries, |x| (x, ()))
    ensures good(res.map, bh), built_set(entries@, firsts(es_of(res.map))),
        crate::fz_maps_fz_string_map::thrifty(res.map), // [C17]
//@ closure 0
|x: _| -> (r: (_, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_built_set(src); }
//@ endfn
//@ fn FzStringSet::new
//@ mode free
//@ rename new_set
//@ props C02,C12,C15,C17
//@ rewrite Self::with_hasher =>> with_hasher_set
    ensures good(res.map, bh_of(res.map)), built_set(entries@, firsts(es_of(res.map))),
        crate::fz_maps_fz_string_map::thrifty(res.map), // [C17]
//@ endfn
//@ fn FzStringSet@Default::default
//@ mode free
//@ rename set_default
//@ rewrite FzStringMap::default() =>> crate::fz_maps_fz_string_map::map_default()
//@ props C12,C15
    ensures res.map.es().len() == 0,
//@ endfn
//@ fn FzStringSet@From<FzStringMap<Box<str>,(),BH>>::from
//@ mode free
//@ rename from_map
//@ props C12,C16
    ensures res.map == map,
//@ endfn
//@ fn FzStringSet@From<[T;N]>::from
//@ mode free
//@ rename from_array
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzStringMap::from_iter(entries.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_string_map::from_iterator(crate::prelude::v_map_array(entries, |x| (x, ()))))
    ensures good(res.map, bh_of(res.map)), built_set(entries@, firsts(es_of(res.map))),
        crate::fz_maps_fz_string_map::thrifty(res.map), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = entries@;
        proof { lemma_all_built_set(src); }
//@ endfn
//@ fn FzStringSet@FromIterator::from_iter
//@ mode free
//@ rename from_iterator
//@ props C02,C12,C15,C16,C17
//@ rewrite Self::from(FzStringMap::from_iter(iter.into_iter().map(|x| (x, ())))) =>> from_map(crate::fz_maps_fz_string_map::from_iterator(crate::prelude::v_map_all(iter, |x| (x, ()))))
    ensures good(res.map, bh_of(res.map)), built_set(crate::prelude::collected(iter), firsts(es_of(res.map))),
        crate::fz_maps_fz_string_map::thrifty(res.map), // [C17]
//@ closure 0
|x: T| -> (r: (T, ())) ensures r == (x, ())
//@ ghost start
        let ghost src = crate::prelude::collected(iter);
        proof { lemma_all_built_set(src); }
//@ endfn
}
