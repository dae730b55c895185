/// The query vocabulary: the crate's and `equivalent`'s traits, each method tied to a spec function. That user-supplied
/// implementations compute such functions (same answer for same arguments) is an assumption of every property.
pub mod query {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::perm::*;
use vstd::std_specs::cmp::*;

pub trait Equivalent<K: ?Sized> {
    spec fn eqv(&self, k: &K) -> bool;
    fn equivalent(&self, key: &K) -> (r: bool) ensures r == self.eqv(key);
}
pub trait Comparable<K: ?Sized>: Equivalent<K> {
    spec fn cmpv(&self, k: &K) -> Ordering;
    fn compare(&self, key: &K) -> (r: Ordering) ensures r == self.cmpv(key);
}
/// `equivalent`'s blanket implementations at the key type itself (assumed: they delegate to `Eq` and `Ord`)
pub uninterp spec fn unlawful_eq<Q: ?Sized>(a: &Q, b: &Q) -> bool;
pub uninterp spec fn unlawful_cmp<Q: ?Sized>(a: &Q, b: &Q) -> Ordering;
impl<Q: Eq> Equivalent<Q> for Q {
    open spec fn eqv(&self, k: &Q) -> bool { if Q::obeys_eq_spec() { PartialEqSpec::eq_spec(self, k) } else { unlawful_eq(self, k) } }
    #[verifier::external_body]
    fn equivalent(&self, key: &Q) -> (r: bool) { self == key }
}
impl<Q: Ord> Comparable<Q> for Q {
    open spec fn cmpv(&self, k: &Q) -> Ordering { if Q::obeys_cmp_spec() { self.cmp_spec(k) } else { unlawful_cmp(self, k) } }
    #[verifier::external_body]
    fn compare(&self, key: &Q) -> (r: Ordering) { self.cmp(key) }
}
pub trait Hasher<T: ?Sized> {
    /// the hasher's own configuration is valid (its range is not inverted)
    spec fn hok(&self) -> bool;
    spec fn hashv(&self, t: &T) -> u64;
    fn hash_one(&self, value: &T) -> (r: u64) requires self.hok() ensures r == self.hashv(value);
}
pub trait Len {
    spec fn lenv(&self) -> nat;
    fn len(&self) -> (r: usize) ensures r == self.lenv();
//@ module traits::len
//@ fn trait Len::is_empty
//@ mode bare
//@ props C08,C12,C16
    ensures res == (self.lenv() == 0),
//@ endfn
}
pub trait Scalar: Ord + Clone + Copy {
    spec fn idx(&self) -> usize;
    fn index(&self) -> (r: usize) ensures r == self.idx();
    /// the order of the keys is the order of their indices (hence indices are injective)
    proof fn laws() ensures Self::obeys_cmp_spec(), forall|a: Self, b: Self| #[trigger] a.cmp_spec(&b) == int_cmp(a.idx() as int, b.idx() as int),
        Self::obeys_eq_spec(), forall|a: Self, b: Self| #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.idx() == b.idx());
}
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn by_eqv<K, Q: ?Sized + Equivalent<K>>(key: &Q) -> spec_fn(K) -> bool { |k: K| key.eqv(&k) }
pub open spec fn by_cmp<K, Q: ?Sized + Comparable<K>>(key: &Q) -> spec_fn(K) -> bool { |k: K| key.cmpv(&k) == Ordering::Equal }
pub open spec fn by_idx<K: Scalar, Q: Scalar>(key: &Q) -> spec_fn(K) -> bool { |k: K| key.idx() == k.idx() }

/// r is the value of an entry among the first n whose key satisfies hit, or there is none
pub open spec fn look<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool, r: Option<&V>, n: int) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < n && hit((#[trigger] e[i]).0) && *v == e[i].1,
        None => forall|i: int| 0 <= i < n ==> !hit((#[trigger] e[i]).0),
    }
}
pub open spec fn look_kv<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool, r: Option<(&K, &V)>, n: int) -> bool {
    match r {
        Some(kv) => exists|i: int| 0 <= i < n && hit((#[trigger] e[i]).0) && *kv.0 == e[i].0 && *kv.1 == e[i].1,
        None => forall|i: int| 0 <= i < n ==> !hit((#[trigger] e[i]).0),
    }
}
/// as `look`; f is the later state of e: what is written through r changes that one value and nothing else
#[verifier::prophetic]
pub open spec fn look_mut<K, V>(e: Seq<(K, V)>, f: Seq<(K, V)>, hit: spec_fn(K) -> bool, r: Option<&mut V>, n: int) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < n && hit((#[trigger] e[i]).0) && *v == e[i].1 && f =~= e.update(i, (e[i].0, *final(v))),
        None => f =~= e && forall|i: int| 0 <= i < n ==> !hit((#[trigger] e[i]).0),
    }
}
#[verifier::prophetic]
pub open spec fn scan_mut<K, V>(e: Seq<(K, V)>, s: Seq<&mut (K, V)>, hit: spec_fn(K) -> bool, r: Option<&mut V>, n: int) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < n && hit((#[trigger] e[i]).0) && *v == e[i].1 && *final(s[i]) == (e[i].0, *final(v)) && forall|k: int| 0 <= k < n && k != i ==> *final(#[trigger] s[k]) == e[k],
        None => forall|i: int| 0 <= i < n ==> !hit((#[trigger] e[i]).0) && *final(s[i]) == e[i],
    }
}
/// some key satisfies hit
pub open spec fn any_hit<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool) -> bool {
    exists|i: int| 0 <= i < e.len() && hit((#[trigger] e[i]).0)
}
/// at most one key satisfies hit
pub open spec fn one_hit<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && hit((#[trigger] e[i]).0) && hit((#[trigger] e[j]).0) ==> i == j
}
//@ proof query-forms-agree C16,C01,C03,C04,C05
/// the ways of asking about a key have the same answer
pub proof fn theorem_query_forms_agree<K, V>(e: Seq<(K, V)>, hit: spec_fn(K) -> bool, g: Option<&V>, kv: Option<(&K, &V)>, c: bool)
    requires one_hit(e, hit), look(e, hit, g, e.len() as int), look_kv(e, hit, kv, e.len() as int), c == any_hit(e, hit),
    ensures c == (g is Some), c == (kv is Some), c ==> *kv->Some_0.1 == *g->Some_0 && hit(*kv->Some_0.0),
{ }
//@ endproof
/// the answer of a positional lookup: the entry at p, or nothing when p is negative
pub open spec fn at<K, V>(e: Seq<(K, V)>, p: int, r: Option<&V>) -> bool {
    match r { Some(v) => 0 <= p < e.len() && *v == e[p].1, None => p < 0 }
}
pub open spec fn at_kv<K, V>(e: Seq<(K, V)>, p: int, r: Option<(&K, &V)>) -> bool {
    match r { Some(kv) => 0 <= p < e.len() && *kv.0 == e[p].0 && *kv.1 == e[p].1, None => p < 0 }
}
#[verifier::prophetic]
pub open spec fn at_mut<K, V>(e: Seq<(K, V)>, f: Seq<(K, V)>, p: int, r: Option<&mut V>) -> bool {
    match r { Some(v) => 0 <= p < e.len() && *v == e[p].1 && f =~= e.update(p, (e[p].0, *final(v))), None => p < 0 && f =~= e }
}
/// keys in strictly increasing index order
pub open spec fn idx_sorted<K: Scalar, V>(e: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.idx() < (#[trigger] e[j]).0.idx()
}
pub open spec fn same_idx<K: Scalar, V>() -> spec_fn((K, V), (K, V)) -> bool { |a: (K, V), b: (K, V)| a.0.idx() == b.0.idx() }
pub open spec fn idx_cmp<K: Scalar, V>() -> spec_fn((K, V), (K, V)) -> Ordering { |a: (K, V), b: (K, V)| int_cmp(a.0.idx() as int, b.0.idx() as int) }
pub proof fn lemma_idx_cmp<K: Scalar, V>()
    ensures lawful_cmp(idx_cmp::<K, V>()),
        forall|e: Seq<(K, V)>| #[trigger] strictly_sorted_by(e, idx_cmp::<K, V>()) ==> idx_sorted(e),
        same_idx::<K, V>() == eq_by(idx_cmp::<K, V>()),
{
    let c = idx_cmp::<K, V>();
    assert forall|e: Seq<(K, V)>| #[trigger] strictly_sorted_by(e, c) implies idx_sorted(e) by {
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0.idx() < (#[trigger] e[j]).0.idx() by {
            assert(c(e[i], e[j]) == Ordering::Less);
        }
    }
    assert(same_idx::<K, V>() =~= eq_by(idx_cmp::<K, V>()));
}
/// n strictly increasing indices span at least n - 1
pub proof fn lemma_idx_gap<K: Scalar, V>(e: Seq<(K, V)>, i: int, j: int)
    requires idx_sorted(e), 0 <= i <= j < e.len(),
    ensures e[j].0.idx() - e[i].0.idx() >= j - i,
    decreases j - i,
{ if i < j { lemma_idx_gap(e, i, j - 1); } }
/// strictly increasing indices filling their span are consecutive
pub proof fn lemma_idx_dense<K: Scalar, V>(e: Seq<(K, V)>)
    requires idx_sorted(e), e.len() > 0, e[e.len() - 1].0.idx() - e[0].0.idx() == e.len() - 1,
    ensures forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0.idx() == e[0].0.idx() + i,
{
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).0.idx() == e[0].0.idx() + i by {
        lemma_idx_gap(e, 0, i); lemma_idx_gap(e, i, e.len() - 1);
    }
}
/// the answer of a lookup that inspects only the entries in a run
pub open spec fn run_look<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool, r: Option<&V>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < e.len() && run(i) && hit((#[trigger] e[i]).0) && *v == e[i].1,
        None => forall|i: int| 0 <= i < e.len() && run(i) ==> !hit((#[trigger] e[i]).0),
    }
}
pub open spec fn run_look_kv<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool, r: Option<(&K, &V)>) -> bool {
    match r {
        Some(kv) => exists|i: int| 0 <= i < e.len() && run(i) && hit((#[trigger] e[i]).0) && *kv.0 == e[i].0 && *kv.1 == e[i].1,
        None => forall|i: int| 0 <= i < e.len() && run(i) ==> !hit((#[trigger] e[i]).0),
    }
}
#[verifier::prophetic]
pub open spec fn run_look_mut<K, V>(e: Seq<(K, V)>, f: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool, r: Option<&mut V>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < e.len() && run(i) && hit((#[trigger] e[i]).0) && *v == e[i].1 && f =~= e.update(i, (e[i].0, *final(v))),
        None => f =~= e && forall|i: int| 0 <= i < e.len() && run(i) ==> !hit((#[trigger] e[i]).0),
    }
}
pub open spec fn run_hit<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool) -> bool {
    exists|i: int| 0 <= i < e.len() && run(i) && hit((#[trigger] e[i]).0)
}
/// hash codes of stored keys under the map's hasher
pub open spec fn key_hash<K, V, H: Hasher<K>>(h: H) -> spec_fn((K, V)) -> u64 { |e: (K, V)| h.hashv(&e.0) }
pub open spec fn same_key<K: Eq, V>() -> spec_fn((K, V), (K, V)) -> bool { |a: (K, V), b: (K, V)| PartialEqSpec::eq_spec(&a.0, &b.0) }
/// the laws Rust asks of a key type: Eq is an equivalence, equal keys hash alike
pub open spec fn lawful_key<K: Eq, V, H: Hasher<K>>(h: H) -> bool {
    K::obeys_eq_spec() && equivalence(same_key::<K, V>()) && forall|a: (K, V), b: (K, V)| #[trigger] same_key::<K, V>()(a, b) ==> h.hashv(&a.0) == h.hashv(&b.0)
}
/// a query key is consistent with the stored keys: it hashes like the keys it is equivalent to
pub open spec fn consistent<K, Q: ?Sized + Equivalent<K>, H: Hasher<K> + Hasher<Q>>(h: H, key: &Q) -> bool {
    forall|k: K| #[trigger] key.eqv(&k) ==> <H as Hasher<Q>>::hashv(&h, key) == <H as Hasher<K>>::hashv(&h, &k)
}
/// The map traits of the crate, each method tied to a spec function.
pub trait MapQuery<Q: ?Sized, V>: Len {
    /// the question is well posed: the map is well formed and at most one of its keys answers to `key`
    spec fn qok(&self, key: &Q) -> bool;
    /// what the map holds for `key`
    spec fn at_key(&self, key: &Q) -> Option<V>;
    fn get(&self, key: &Q) -> (r: Option<&V>) requires self.qok(key) ensures (r is Some) == (self.at_key(key) is Some), r is Some ==> *r->Some_0 == self.at_key(key)->Some_0;
    fn get_mut(&mut self, key: &Q) -> (r: Option<&mut V>) requires old(self).qok(key)
        ensures (r is Some) == (old(self).at_key(key) is Some), r is Some ==> *r->Some_0 == old(self).at_key(key)->Some_0,
            final(self).lenv() == old(self).lenv();
    fn contains_key(&self, key: &Q) -> (r: bool) requires self.qok(key) ensures r == (self.at_key(key) is Some);
}
pub trait MapExtras<K, V, Q: ?Sized>: MapQuery<Q, V> {
    fn get_key_value(&self, key: &Q) -> (r: Option<(&K, &V)>) requires self.qok(key)
        ensures (r is Some) == (self.at_key(key) is Some), r is Some ==> *r->Some_0.1 == self.at_key(key)->Some_0;
}
/// some key is asked for twice
pub open spec fn repeats<Q: ?Sized + Eq>(keys: Seq<&Q>) -> bool { exists|i: int, j: int| 0 <= j < i < keys.len() && #[trigger] crate::utils_dedup::dup_at(keys, i, j) }
/// what the entries selected by run and hit hold (one of them; unique when `one_run`)
pub open spec fn found<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool) -> Option<V> {
    if run_hit(e, run, hit) { Some(e[choose|i: int| 0 <= i < e.len() && run(i) && hit((#[trigger] e[i]).0)].1) } else { None }
}
pub open spec fn one_run<K, V>(e: Seq<(K, V)>, run: spec_fn(int) -> bool, hit: spec_fn(K) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && run(i) && run(j) && hit((#[trigger] e[i]).0) && hit((#[trigger] e[j]).0) ==> i == j
}
pub open spec fn everywhere() -> spec_fn(int) -> bool { |i: int| true }
/// what sits at a position
pub open spec fn value_at<K, V>(e: Seq<(K, V)>, p: int) -> Option<V> { if 0 <= p < e.len() { Some(e[p].1) } else { None } }
/// m holds for the entry's key the entry's value
pub open spec fn agrees<K, V: PartialEq, M: MapQuery<K, V>>(m: M, x: (K, V)) -> bool {
    m.at_key(&x.0) is Some && PartialEqSpec::eq_spec(&x.1, &m.at_key(&x.0)->Some_0)
}
/// m has as many entries as e, and agrees with each of e's
pub open spec fn covers<K, V: PartialEq, M: MapQuery<K, V>>(e: Seq<(K, V)>, m: M) -> bool {
    e.len() == m.lenv() && forall|i: int| 0 <= i < e.len() ==> agrees(m, #[trigger] e[i])
}
/// writing through r changes the value of one entry among those selected, and nothing else
#[verifier::prophetic]
pub open spec fn touches<K, V>(e: Seq<(K, V)>, f: Seq<(K, V)>, sel: spec_fn(int) -> bool, r: Option<&mut V>) -> bool {
    match r {
        Some(v) => exists|i: int| 0 <= i < e.len() && sel(i) && *v == (#[trigger] e[i]).1 && f =~= e.update(i, (e[i].0, *final(v))),
        None => f =~= e,
    }
}
/// the key answered with is that of one of the entries selected
pub open spec fn picks<K, V>(e: Seq<(K, V)>, sel: spec_fn(int) -> bool, r: Option<(&K, &V)>) -> bool {
    r is Some ==> exists|i: int| 0 <= i < e.len() && sel(i) && *r->Some_0.0 == (#[trigger] e[i]).0 && *r->Some_0.1 == e[i].1
}
}
