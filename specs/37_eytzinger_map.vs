/// Ordered lookup: what the search needs of the entries and of the query.
pub mod eytz_query {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::query::*;
use crate::perm::*;
use crate::utils_eytzinger::*;
use vstd::std_specs::cmp::*;
/// where an entry lies as seen from the query
pub open spec fn seek<K, V, Q: ?Sized + Comparable<K>>(key: &Q) -> spec_fn((K, V)) -> Ordering { |e: (K, V)| crate::prelude::ord_rev(key.cmpv(&e.0)) }
pub open spec fn findable<K, V, Q: ?Sized + Comparable<K>>(e: Seq<(K, V)>, key: &Q) -> bool { ordered(e, seek::<K, V, Q>(key)) }
pub open spec fn sound_look<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool, r: Option<&V>) -> bool {
    r is Some ==> exists|i: int| 0 <= i < e.len() && *r->Some_0 == (#[trigger] e[i]).1
}
pub proof fn lemma_findable<K, V, Q: ?Sized + Comparable<K>>(e: Seq<(K, V)>, key: &Q)
    ensures findable::<K, V, Q>(e, key) == ordered(e, seek::<K, V, Q>(key)),
        forall|k: (K, V)| (#[trigger] seek::<K, V, Q>(key)(k) == Ordering::Equal) == by_cmp::<K, Q>(key)(k.0),
{ }
/// entries by key order
pub open spec fn key_cmp<K: Ord, V>() -> spec_fn((K, V), (K, V)) -> Ordering { |a: (K, V), b: (K, V)| a.0.cmp_spec(&b.0) }
/// the laws Rust asks of an ordered key
pub open spec fn lawful_ord<K: Ord, V>() -> bool { K::obeys_cmp_spec() && lawful_cmp(key_cmp::<K, V>()) }
/// the query compares with the keys as one of them would: the greater of two keys is greater for it too
pub open spec fn lawful_comparison<K: Ord, Q: ?Sized + Comparable<K>>(key: &Q) -> bool {
    forall|a: K, b: K| #[trigger] a.cmp_spec(&b) == Ordering::Less && key.cmpv(&a) != Ordering::Greater ==> key.cmpv(&b) == Ordering::Less
}
//@ proof ordered-map-answers-exactly C03,C12,C16
/// laid out from sorted distinct keys, every lawful query is findable and at most one key matches it
pub proof fn theorem_findable<K: Ord, V, Q: ?Sized + Comparable<K>>(a: Seq<(K, V)>, key: &Q)
    requires strictly_sorted_by(a, key_cmp::<K, V>()), lawful_comparison::<K, Q>(key),
    ensures findable::<K, V, Q>(laid_out(a), key), one_hit(laid_out(a), by_cmp::<K, Q>(key)), any_hit(laid_out(a), by_cmp::<K, Q>(key)) == any_hit(a, by_cmp::<K, Q>(key)),
{
    let d = laid_out(a);
    let n = a.len() as int;
    let c = seek::<K, V, Q>(key);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] rank(i, n) < #[trigger] rank(j, n) implies ord_int(c(d[i])) <= ord_int(c(d[j])) by {
        lemma_tree(i, n); lemma_tree(j, n);
        assert(key_cmp::<K, V>()(a[rank(i, n)], a[rank(j, n)]) == Ordering::Less);
        assert(a[rank(i, n)].0.cmp_spec(&a[rank(j, n)].0) == Ordering::Less);
    }
    let hit = by_cmp::<K, Q>(key);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && hit((#[trigger] d[i]).0) && hit((#[trigger] d[j]).0) implies i == j by {
        lemma_tree(i, n); lemma_tree(j, n);
        if rank(i, n) < rank(j, n) { assert(key_cmp::<K, V>()(a[rank(i, n)], a[rank(j, n)]) == Ordering::Less); assert(a[rank(i, n)].0.cmp_spec(&a[rank(j, n)].0) == Ordering::Less); }
        else if rank(j, n) < rank(i, n) { assert(key_cmp::<K, V>()(a[rank(j, n)], a[rank(i, n)]) == Ordering::Less); assert(a[rank(j, n)].0.cmp_spec(&a[rank(i, n)].0) == Ordering::Less); }
        else { lemma_rank_inj(i, j, n); }
    }
    lemma_rearranged(a);
    if any_hit(a, hit) { let i = choose|i: int| 0 <= i < n && hit((#[trigger] a[i]).0); assert(taken(i, n, n)); let j = choose|j: int| 0 <= j < n && #[trigger] rank(j, n) == i; assert(hit(d[j].0)); }
    if any_hit(d, hit) { let i = choose|i: int| 0 <= i < n && hit((#[trigger] d[i]).0); lemma_tree(i, n); assert(hit(a[rank(i, n)].0)); }
}
/// laying out rearranges: every element is there exactly once
pub proof fn lemma_rearranged<T>(a: Seq<T>)
    ensures laid_out(a).len() == a.len(), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] rank(i, a.len() as int) < a.len(),
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] rank(i, a.len() as int) == #[trigger] rank(j, a.len() as int) ==> i == j,
        forall|o: int| 0 <= o < a.len() ==> #[trigger] taken(o, a.len() as int, a.len() as int),
{
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] rank(i, n) < n by { lemma_tree(i, n); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] rank(i, n) == #[trigger] rank(j, n) implies i == j by { lemma_rank_inj(i, j, n); }
    let js = Seq::new(a.len(), |i: int| rank(i, n));
    assert(js.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < js.len() && 0 <= j < js.len() && i != j implies js[i] != js[j] by { if js[i] == js[j] { lemma_rank_inj(i, j, n); } } }
    js.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(js.to_set().subset_of(r)) by { assert forall|x: int| js.to_set().contains(x) implies #[trigger] r.contains(x) by { let i = choose|i: int| 0 <= i < js.len() && js[i] == x; assert(rank(i, n) == x); } }
    vstd::set_lib::lemma_subset_equality(js.to_set(), r);
    assert forall|o: int| 0 <= o < n implies #[trigger] taken(o, n, n) by {
        assert(r.contains(o)); assert(js.to_set().contains(o)); let i = choose|i: int| 0 <= i < js.len() && js[i] == o; assert(rank(i, n) == o);
    }
}
//@ endproof
}
//@ module maps::eytzinger_search_map
pub mod maps_eytzinger_search_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use crate::utils_eytzinger::*;
use crate::eytz_query::*;
use vstd::std_specs::cmp::*;
//@ type EytzingerSearchMap
//@ include eytzinger.vsi TY=EytzingerSearchMap; E=self.entries
//@ include common_iter.vsi TY=EytzingerSearchMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=EytzingerSearchMap; A=<K, V>; GL=<K, V>; GQ=<K, V, Q: ?Sized + Comparable<K>>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C03; QOK=self.entries@.len() < 0x4000_0000_0000_0000 && findable::<K, V, Q>(self.entries@, key) && one_run(self.entries@, everywhere(), by_cmp::<K, Q>(key)); AT=found(self.entries@, everywhere(), by_cmp::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=EytzingerSearchMap; A=<K, V>; GQ=<K, V, Q: ?Sized + Comparable<K>>; NQ=K, V, Q; UATTR=//@ attr #[verifier::external_body]; HIT=key.cmpv(&m.entries@[i].0) == core::cmp::Ordering::Equal
//@ fn EytzingerSearchMap::new
//@ props C02,C03,C15
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures lawful_ord::<K, V>() ==> exists|d: Seq<(K, V)>| #[trigger] strictly_sorted_by(d, key_cmp::<K, V>()) && deduped(entries@, d, eq_by(key_cmp::<K, V>())) && res.entries@ == laid_out(d),
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: core::cmp::Ordering) ensures K::obeys_cmp_spec() ==> o == key_cmp::<K, V>()(*x, *y)
//@ ghost start
        proof { lemma_len0::<(K, V)>(); }
//@ endfn
//@ fn EytzingerSearchMap::from_sorted_and_dedupped
//@ props C02,C03,C15
    requires entries.inner@.len() < 0x4000_0000_0000_0000,
    ensures res.entries@ == laid_out(entries.inner@),
//@ endfn
impl<K, V> Default for EytzingerSearchMap<K, V> {
//@ fn EytzingerSearchMap@Default::default
//@ mode bare
//@ rewrite Box::default() =>> crate::prelude::v_empty_box()
//@ props C03,C15
    ensures res.entries@.len() == 0,
//@ endfn
}
}
//@ module inline_maps::inline_eytzinger_search_map
pub mod inline_maps_inline_eytzinger_search_map {
use vstd::prelude::*;
use crate::maps_iterators::*;
use crate::iter_specs::*;
use crate::prelude::*;
use crate::query::*;
use crate::perm::*;
use crate::utils_dedup::*;
use vstd::std_specs::cmp::*;
use crate::utils_eytzinger::*;
use crate::eytz_query::*;
//@ type InlineEytzingerSearchMap
//@ include eytzinger.vsi TY=InlineEytzingerSearchMap; E=self.entries
//@ include common_iter.vsi TY=InlineEytzingerSearchMap; E=self.entries; OE=old(self).entries; FE=final(self).entries
//@ include map_traits.vsi TY=InlineEytzingerSearchMap; A=<K, V, SZ>; GL=<K, V, const SZ: usize>; GQ=<K, V, Q: ?Sized + Comparable<K>, const SZ: usize>; E=self.entries@; SE=self_.entries@; SOE=old(self_).entries@; SFE=final(self_).entries@; P=C12,C03; QOK=self.entries@.len() < 0x4000_0000_0000_0000 && findable::<K, V, Q>(self.entries@, key) && one_run(self.entries@, everywhere(), by_cmp::<K, Q>(key)); AT=found(self.entries@, everywhere(), by_cmp::<K, Q>(key)); KT=K
//@ include disjoint.vsi TY=InlineEytzingerSearchMap; A=<K, V, SZ>; GQ=<K, V, Q: ?Sized + Comparable<K>, const SZ: usize>; NQ=K, V, Q, SZ; UATTR=//@ attr #[verifier::external_body]; HIT=key.cmpv(&m.entries@[i].0) == core::cmp::Ordering::Equal
//@ fn InlineEytzingerSearchMap::new
//@ props C02,C03,C12,C15
//@ rewrite entries.try_into().unwrap_or_else(|_| { ::core::panicking::panic_fmt(format_args!("Cannot convert to array of size {0}: length mismatch", SZ)); }) =>> crate::prelude::v_vec_into_array::<(K, V), SZ>(entries)
    requires entries@.len() < 0x4000_0000_0000_0000,
    ensures lawful_ord::<K, V>() ==> exists|d: Seq<(K, V)>| #[trigger] strictly_sorted_by(d, key_cmp::<K, V>()) && deduped(entries@, d, eq_by(key_cmp::<K, V>())) && res.entries@ == laid_out(d),
//@ closure 0
|x: &(K, V), y: &(K, V)| -> (o: core::cmp::Ordering) ensures K::obeys_cmp_spec() ==> o == key_cmp::<K, V>()(*x, *y)
//@ ghost start
        proof { lemma_len0::<(K, V)>(); }
//@ endfn
//@ fn InlineEytzingerSearchMap::new_raw
//@ props C12
    ensures res.entries@ == eytzinger_layout_dedupped_entries@,
//@ endfn
}
