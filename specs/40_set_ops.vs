/// The set traits of the crate, with each method tied to a spec function (`IntoIterator` as a supertrait is dropped).
pub mod set_traits {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::query::Len;
use crate::perm::*;
use vstd::std_specs::cmp::*;
pub trait SetQuery<Q: ?Sized>: Len {
    /// the question is well posed: the set is well formed and at most one of its elements answers to `value`
    spec fn qok(&self, value: &Q) -> bool;
    spec fn has(&self, value: &Q) -> bool;
    fn contains(&self, value: &Q) -> (r: bool) requires self.qok(value) ensures r == self.has(value);
}
pub trait SetIteration<T> {
    type Iterator<'a>: Iterator<Item = &'a T> where Self: 'a, T: 'a;
    spec fn items(&self) -> Seq<T>;
    fn iter(&self) -> (r: Self::Iterator<'_>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == self.items().as_ref();
}
pub trait SetExtras<T, Q: ?Sized>: SetQuery<Q> {
    spec fn matches(&self, t: &T, value: &Q) -> bool;
    fn get(&self, value: &Q) -> (r: Option<&T>) requires self.qok(value) ensures (r is Some) == self.has(value), r is Some ==> self.matches(r->Some_0, value);
}
pub trait Set<T, Q: ?Sized = T>: SetQuery<Q> + SetIteration<T> + SetExtras<T, Q> {}

/// `Iterator::size_hint` of a lawful iterator (trusted): bounds on what remains
#[verifier::external_body]
pub fn v_size_hint<I: Iterator>(i: &I) -> (r: (usize, Option<usize>))
    ensures i.obeys_prophetic_iter_laws() ==> r.0 <= i.remaining().len() && (r.1 is Some ==> i.remaining().len() <= r.1->Some_0)
{ i.size_hint() }
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::min::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if b.cmp_spec(&a) == core::cmp::Ordering::Less { b } else { a };

/// every question to s is well posed
pub open spec fn asks<S: SetQuery<T>, T>(s: S) -> bool { forall|v: T| #[trigger] s.qok(&v) }
/// the elements of s satisfying p, in order
pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + keep(s.drop_first(), p) } else { keep(s.drop_first(), p) }
}
pub open spec fn out_of<'a, S: Set<T>, T>(s: S) -> spec_fn(&'a T) -> bool { |x: &'a T| !s.has(x) }
pub open spec fn in_to<'a, S: Set<T>, T>(s: S) -> spec_fn(&'a T) -> bool { |x: &'a T| s.has(x) }
/// s has as many elements as e, and each of e's
pub open spec fn set_covers<T, S: SetQuery<T>>(e: Seq<T>, s: S) -> bool { e.len() == s.lenv() && forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> s.has(&e[i]) }
pub proof fn lemma_set_covers<T, S: SetQuery<T>>(e: Seq<T>, s: S)
    ensures set_covers(e, s) == (e.len() == s.lenv() && forall|i: int| 0 <= i < e.len() ==> s.has(#[trigger] e.as_ref()[i]))
{
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e.as_ref()[i] == &e[i] by {}
    if forall|i: int| 0 <= i < e.len() ==> s.has(#[trigger] e.as_ref()[i]) { assert forall|i: int| #![trigger e[i]] 0 <= i < e.len() implies s.has(&e[i]) by { assert(s.has(e.as_ref()[i])); } }
}
/// one step of an iterator whose outstanding elements are `before`
pub open spec fn steps<T>(before: Seq<T>, after: Seq<T>, r: Option<T>) -> bool {
    match r { Some(x) => before.len() > 0 && before[0] == x && after =~= before.drop_first(), None => before.len() == 0 && after.len() == 0 }
}
pub open spec fn hinted(n: nat, r: (usize, Option<usize>)) -> bool { r.0 <= n && (r.1 is Some ==> n <= r.1->Some_0) }
/// s is a set of T up to `same`: it holds its items, each once, and nothing else
pub open spec fn lawful_set<S: Set<T>, T>(s: S, same: spec_fn(T, T) -> bool) -> bool { set_of(s, s.items(), same) }
pub open spec fn set_of<S: SetQuery<T>, T>(s: S, e: Seq<T>, same: spec_fn(T, T) -> bool) -> bool {
    &&& equivalence(same)
    &&& distinct(e, same)
    &&& asks::<S, T>(s)
    &&& s.lenv() == e.len()
    &&& forall|v: T| #[trigger] s.has(&v) == holds(e, same, v)
}
pub open spec fn holds<T>(e: Seq<T>, same: spec_fn(T, T) -> bool, v: T) -> bool { exists|i: int| 0 <= i < e.len() && same(#[trigger] e[i], v) }
pub open spec fn holds_ref<T>(e: Seq<&T>, same: spec_fn(T, T) -> bool, v: T) -> bool { exists|i: int| 0 <= i < e.len() && same(*#[trigger] e[i], v) }
pub open spec fn distinct_ref<T>(e: Seq<&T>, same: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> !#[trigger] same(*e[i], *e[j])
}
//@ proof set-op-lemmas C09,C10,C11
pub proof fn lemma_step<T>()
    ensures forall|s: Seq<T>, x: T| #[trigger] (seq![x] + s).drop_first() == s,
        forall|a: Seq<T>, b: Seq<T>| a.len() > 0 ==> #[trigger] (a + b).drop_first() == a.drop_first() + b && (a + b)[0] == a[0],
        forall|a: Seq<T>, b: Seq<T>| a.len() == 0 ==> #[trigger] (a + b) == b,
{
    assert forall|s: Seq<T>, x: T| #[trigger] (seq![x] + s).drop_first() == s by { assert((seq![x] + s).drop_first() =~= s); }
    assert forall|a: Seq<T>, b: Seq<T>| a.len() > 0 implies #[trigger] (a + b).drop_first() == a.drop_first() + b && (a + b)[0] == a[0] by { assert((a + b).drop_first() =~= a.drop_first() + b); }
    assert forall|a: Seq<T>, b: Seq<T>| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
}
pub proof fn lemma_keep_len<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures keep(s, p).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_keep_len(s.drop_first(), p); } }
/// keep: exactly the elements satisfying p, in order of position
pub proof fn lemma_keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> (idx: Seq<int>)
    ensures idx.len() == keep(s, p).len(),
        forall|k: int| 0 <= k < idx.len() ==> 0 <= #[trigger] idx[k] < s.len() && keep(s, p)[k] == s[idx[k]] && p(s[idx[k]]),
        forall|k: int, l: int| 0 <= k < l < idx.len() ==> #[trigger] idx[k] < #[trigger] idx[l],
        forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> exists|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == i,
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let rest = s.drop_first();
        let i0 = lemma_keep(rest, p);
        let sh = Seq::new(i0.len(), |k: int| i0[k] + 1);
        let idx = if p(s[0]) { seq![0int] + sh } else { sh };
        let off: int = if p(s[0]) { 1 } else { 0 };
        assert forall|k: int| 0 <= k < idx.len() implies 0 <= #[trigger] idx[k] < s.len() && keep(s, p)[k] == s[idx[k]] && p(s[idx[k]]) by {
            if k >= off { assert(idx[k] == i0[k - off] + 1); assert(rest[i0[k - off]] == s[idx[k]]); }
        }
        assert forall|k: int, l: int| 0 <= k < l < idx.len() implies #[trigger] idx[k] < #[trigger] idx[l] by {
            assert(idx[l] == i0[l - off] + 1);
            if k >= off { assert(idx[k] == i0[k - off] + 1); }
        }
        assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies exists|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == i by {
            if i == 0 { assert(idx[0] == 0); } else {
                assert(rest[i - 1] == s[i]);
                let k = choose|k: int| 0 <= k < i0.len() && #[trigger] i0[k] == i - 1;
                assert(idx[k + off] == i);
            }
        }
        idx
    }
}
/// membership respects `same`
pub proof fn lemma_has_same<S: Set<T>, T>(s: S, same: spec_fn(T, T) -> bool, a: T, b: T)
    requires lawful_set(s, same), same(a, b),
    ensures s.has(&a) == s.has(&b),
{
    assert(same(b, a));
    if s.has(&a) { assert(holds(s.items(), same, a)); let i = choose|i: int| 0 <= i < s.items().len() && same(#[trigger] s.items()[i], a); assert(same(s.items()[i], b)); assert(holds(s.items(), same, b)); }
    if s.has(&b) { assert(holds(s.items(), same, b)); let i = choose|i: int| 0 <= i < s.items().len() && same(#[trigger] s.items()[i], b); assert(same(s.items()[i], a)); assert(holds(s.items(), same, a)); }
}
/// the elements of s1 kept by a predicate that respects `same`
pub proof fn lemma_kept_set<S: Set<T>, T>(s: S, same: spec_fn(T, T) -> bool, p: spec_fn(&T) -> bool)
    requires lawful_set(s, same), forall|a: T, b: T| #[trigger] same(a, b) ==> p(&a) == p(&b),
    ensures distinct_ref(keep(s.items().as_ref(), p), same),
        forall|v: T| #[trigger] holds_ref(keep(s.items().as_ref(), p), same, v) == (s.has(&v) && p(&v)),
{
    let e = s.items().as_ref();
    let idx = lemma_keep(e, p);
    let r = keep(e, p);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !#[trigger] same(*r[i], *r[j]) by {
        assert(idx[i] != idx[j]) by { if i < j { assert(idx[i] < idx[j]); } else { assert(idx[j] < idx[i]); } }
        assert(*r[i] == s.items()[idx[i]]);
        assert(*r[j] == s.items()[idx[j]]);
        assert(!same(s.items()[idx[i]], s.items()[idx[j]]));
    }
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s.has(&v) && p(&v)) by {
        if holds_ref(r, same, v) {
            let k = choose|k: int| 0 <= k < r.len() && same(*#[trigger] r[k], v);
            assert(same(s.items()[idx[k]], v));
            assert(holds(s.items(), same, v));
            assert(p(&s.items()[idx[k]]));
        }
        if s.has(&v) && p(&v) {
            assert(holds(s.items(), same, v));
            let i = choose|i: int| 0 <= i < s.items().len() && same(#[trigger] s.items()[i], v);
            assert(p(e[i]));
            let k = choose|k: int| 0 <= k < idx.len() && #[trigger] idx[k] == i;
            assert(same(*r[k], v));
        }
    }
}
/// a set all of whose elements lie in another is no larger
pub proof fn lemma_pigeon<T>(a: Seq<T>, b: Seq<T>, same: spec_fn(T, T) -> bool)
    requires equivalence(same), distinct(a, same), forall|i: int| 0 <= i < a.len() ==> holds(b, same, #[trigger] a[i]),
    ensures a.len() <= b.len(),
{
    let js = Seq::new(a.len(), |i: int| choose|j: int| 0 <= j < b.len() && same(#[trigger] b[j], a[i]));
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] js[i] < b.len() && same(b[js[i]], a[i]) by { assert(holds(b, same, a[i])); }
    assert forall|i: int, k: int| 0 <= i < k < js.len() implies js[i] != js[k] by {
        if js[i] == js[k] { assert(same(a[i], b[js[i]])); assert(same(b[js[k]], a[k])); assert(same(a[i], a[k])); }
    }
    assert(js.no_duplicates());
    js.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, b.len() as int);
    vstd::set_lib::lemma_int_range(0, b.len() as int);
    assert(js.to_set().subset_of(r));
    vstd::set_lib::lemma_len_subset(js.to_set(), r);
}
pub open spec fn subset<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> bool { forall|v: T| #[trigger] a.has(&v) ==> b.has(&v) }
pub open spec fn disjoint<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> bool { forall|v: T| #[trigger] a.has(&v) ==> !b.has(&v) }
/// what `all` over one set's iterator with the other's `contains` says
pub proof fn lemma_subset_all<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2, same: spec_fn(T, T) -> bool)
    requires lawful_set(a, same), lawful_set(b, same),
    ensures subset(a, b) == (forall|i: int| 0 <= i < a.items().len() ==> b.has(#[trigger] &a.items()[i])),
        disjoint(a, b) == (forall|i: int| 0 <= i < a.items().len() ==> !b.has(#[trigger] &a.items()[i])),
        disjoint(a, b) == disjoint(b, a),
        subset(a, b) ==> a.items().len() <= b.items().len(),
{
    let e = a.items();
    assert forall|i: int| 0 <= i < e.len() implies a.has(#[trigger] &e[i]) by { assert(same(e[i], e[i])); assert(holds(e, same, e[i])); }
    if forall|i: int| 0 <= i < e.len() ==> b.has(#[trigger] &e[i]) {
        assert forall|v: T| #[trigger] a.has(&v) implies b.has(&v) by {
            assert(holds(e, same, v));
            let i = choose|i: int| 0 <= i < e.len() && same(#[trigger] e[i], v);
            assert(b.has(&e[i]));
            lemma_has_same(b, same, e[i], v);
        }
    }
    if forall|i: int| 0 <= i < e.len() ==> !b.has(#[trigger] &e[i]) {
        assert forall|v: T| #[trigger] a.has(&v) implies !b.has(&v) by {
            assert(holds(e, same, v));
            let i = choose|i: int| 0 <= i < e.len() && same(#[trigger] e[i], v);
            assert(!b.has(&e[i]));
            lemma_has_same(b, same, e[i], v);
        }
    }
    if subset(a, b) {
        assert forall|i: int| 0 <= i < e.len() implies holds(b.items(), same, #[trigger] e[i]) by { assert(a.has(&e[i])); assert(b.has(&e[i])); }
        lemma_pigeon(e, b.items(), same);
    }
}
//@ endproof
//@ proof set-ops-are-the-set-operations C09
/// difference: exactly the elements of s1 that s2 lacks, each once
pub proof fn theorem_difference<S1: Set<T>, S2: Set<T>, T>(s1: S1, s2: S2, same: spec_fn(T, T) -> bool, r: Seq<&T>)
    requires lawful_set(s1, same), lawful_set(s2, same), r == keep(s1.items().as_ref(), out_of::<S2, T>(s2)),
    ensures distinct_ref(r, same), forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) && !s2.has(&v)),
{
    let p = out_of::<S2, T>(s2);
    assert forall|a: T, b: T| #[trigger] same(a, b) implies p(&a) == p(&b) by { lemma_has_same(s2, same, a, b); }
    lemma_kept_set(s1, same, p);
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) && !s2.has(&v)) by { assert(p(&v) == !s2.has(&v)); }
}
/// intersection, from either side
pub proof fn theorem_intersection<S1: Set<T>, S2: Set<T>, T>(s1: S1, s2: S2, same: spec_fn(T, T) -> bool, r: Seq<&T>)
    requires lawful_set(s1, same), lawful_set(s2, same), r == keep(s1.items().as_ref(), in_to::<S2, T>(s2)),
    ensures distinct_ref(r, same), forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) && s2.has(&v)),
{
    let p = in_to::<S2, T>(s2);
    assert forall|a: T, b: T| #[trigger] same(a, b) implies p(&a) == p(&b) by { lemma_has_same(s2, same, a, b); }
    lemma_kept_set(s1, same, p);
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) && s2.has(&v)) by { assert(p(&v) == s2.has(&v)); }
}
/// s1 followed by what s2 adds to it
pub proof fn theorem_union<S1: Set<T>, S2: Set<T>, T>(s1: S1, s2: S2, same: spec_fn(T, T) -> bool, r: Seq<&T>)
    requires lawful_set(s1, same), lawful_set(s2, same), r == s1.items().as_ref() + keep(s2.items().as_ref(), out_of::<S1, T>(s1)),
    ensures distinct_ref(r, same), forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) || s2.has(&v)),
{
    let e = s1.items().as_ref();
    let d = keep(s2.items().as_ref(), out_of::<S1, T>(s1));
    theorem_difference(s2, s1, same, d);
    lemma_concat(s1, same, d, r);
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) || s2.has(&v)) by { assert(holds_ref(d, same, v) == (s2.has(&v) && !s1.has(&v))); }
}
pub proof fn lemma_concat<S1: Set<T>, T>(s1: S1, same: spec_fn(T, T) -> bool, d: Seq<&T>, r: Seq<&T>)
    requires lawful_set(s1, same), distinct_ref(d, same), forall|v: T| #[trigger] holds_ref(d, same, v) ==> !s1.has(&v), r == s1.items().as_ref() + d,
    ensures distinct_ref(r, same), forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) || holds_ref(d, same, v)),
{
    let e = s1.items();
    let n = e.len() as int;
    assert forall|i: int| 0 <= i < n implies *#[trigger] r[i] == e[i] by { }
    assert forall|i: int| n <= i < r.len() implies #[trigger] r[i] == d[i - n] by { }
    assert forall|i: int, j: int| 0 <= i < n && n <= j < r.len() implies !#[trigger] same(*r[i], *r[j]) && !same(*r[j], *r[i]) by {
        let w = *d[j - n];
        assert(same(w, w));
        assert(holds_ref(d, same, w));
        if same(e[i], w) { assert(holds(e, same, w)); assert(s1.has(&w)); }
        if same(w, e[i]) { assert(same(e[i], w)); assert(holds(e, same, w)); assert(s1.has(&w)); }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !#[trigger] same(*r[i], *r[j]) by {
        if i < n && j < n { assert(!same(e[i], e[j])); }
        else if i >= n && j >= n { assert(!same(*d[i - n], *d[j - n])); }
        else if i < n { assert(!same(*r[i], *r[j])); }
        else { assert(!same(*r[j], *r[i])); }
    }
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) || holds_ref(d, same, v)) by {
        if holds_ref(r, same, v) {
            let k = choose|k: int| 0 <= k < r.len() && same(*#[trigger] r[k], v);
            if k < n { assert(same(e[k], v)); assert(holds(e, same, v)); } else { assert(same(*d[k - n], v)); }
        }
        if s1.has(&v) { assert(holds(e, same, v)); let i = choose|i: int| 0 <= i < e.len() && same(#[trigger] e[i], v); assert(same(*r[i], v)); }
        if holds_ref(d, same, v) { let k = choose|k: int| 0 <= k < d.len() && same(*#[trigger] d[k], v); assert(same(*r[k + n], v)); }
    }
}
/// symmetric difference: what only s1 has, then what only s2 has
pub proof fn theorem_symmetric_difference<S1: Set<T>, S2: Set<T>, T>(s1: S1, s2: S2, same: spec_fn(T, T) -> bool, r: Seq<&T>)
    requires lawful_set(s1, same), lawful_set(s2, same),
        r == keep(s1.items().as_ref(), out_of::<S2, T>(s2)) + keep(s2.items().as_ref(), out_of::<S1, T>(s1)),
    ensures distinct_ref(r, same), forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) != s2.has(&v)),
{
    let c = keep(s1.items().as_ref(), out_of::<S2, T>(s2));
    let d = keep(s2.items().as_ref(), out_of::<S1, T>(s1));
    theorem_difference(s1, s2, same, c);
    theorem_difference(s2, s1, same, d);
    let n = c.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] r[i] == c[i] by { }
    assert forall|i: int| n <= i < r.len() implies #[trigger] r[i] == d[i - n] by { }
    assert forall|i: int, j: int| 0 <= i < n && n <= j < r.len() implies !#[trigger] same(*r[i], *r[j]) && !same(*r[j], *r[i]) by {
        assert(same(*c[i], *c[i])); assert(holds_ref(c, same, *c[i]));
        assert(same(*d[j - n], *d[j - n])); assert(holds_ref(d, same, *d[j - n]));
        if same(*r[i], *r[j]) { lemma_has_same(s1, same, *r[i], *r[j]); }
        if same(*r[j], *r[i]) { lemma_has_same(s1, same, *r[j], *r[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !#[trigger] same(*r[i], *r[j]) by {
        if i < n && j < n { assert(!same(*c[i], *c[j])); }
        else if i >= n && j >= n { assert(!same(*d[i - n], *d[j - n])); }
        else if i < n { assert(!same(*r[i], *r[j])); }
        else { assert(!same(*r[j], *r[i])); }
    }
    assert forall|v: T| #[trigger] holds_ref(r, same, v) == (s1.has(&v) != s2.has(&v)) by {
        if holds_ref(r, same, v) {
            let k = choose|k: int| 0 <= k < r.len() && same(*#[trigger] r[k], v);
            if k < n { assert(same(*c[k], v)); assert(holds_ref(c, same, v)); } else { assert(same(*d[k - n], v)); assert(holds_ref(d, same, v)); }
        }
        if s1.has(&v) && !s2.has(&v) { assert(holds_ref(c, same, v)); let k = choose|k: int| 0 <= k < c.len() && same(*#[trigger] c[k], v); assert(same(*r[k], v)); }
        if !s1.has(&v) && s2.has(&v) { assert(holds_ref(d, same, v)); let k = choose|k: int| 0 <= k < d.len() && same(*#[trigger] d[k], v); assert(same(*r[k + n], v)); }
    }
}
//@ endproof
}
