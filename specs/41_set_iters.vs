//@ module sets::iterators
pub mod sets_iterators {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use core::cmp::min;
use crate::query::Len;
use crate::perm::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::traits_set_ops::*;
//@ type Difference
//@ type Union
//@ type Intersection
impl<'a, S1: Set<T>, S2: Set<T>, T> Clone for Difference<'a, S1, S2, T> where <S1 as SetIteration<T>>::Iterator<'a>: Clone {
//@ fn Difference@Clone::clone
//@ mode bare
//@ props C09,C10
    ensures res.s1 == self.s1, res.s2 == self.s2, cloned(self.s1_iter, res.s1_iter),
//@ endfn
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Clone for Union<'a, S1, S2, T> where <S1 as SetIteration<T>>::Iterator<'a>: Clone, <S2 as SetIteration<T>>::Iterator<'a>: Clone {
//@ fn Union@Clone::clone
//@ mode bare
//@ props C09,C10
    ensures res.s1 == self.s1, res.s2 == self.s2, cloned(self.s1_iter, res.s1_iter), cloned(self.s2_iter, res.s2_iter),
//@ endfn
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Clone for Intersection<'a, S1, S2, T> where <S1 as SetIteration<T>>::Iterator<'a>: Clone, <S2 as SetIteration<T>>::Iterator<'a>: Clone {
//@ fn Intersection@Clone::clone
//@ mode bare
//@ props C09,C10
    ensures res.s1 == self.s1, res.s2 == self.s2, cloned(self.s1_iter, res.s1_iter), cloned(self.s2_iter, res.s2_iter),
//@ endfn
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Difference<'a, S1, S2, T> {
    /// the inner iterators are those of the two sets, part consumed
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { asks::<S1, T>(*self.s1) && asks::<S2, T>(*self.s2) && self.s1_iter.obeys_prophetic_iter_laws() && self.s1_iter.decrease() is Some && self.s1_iter.remaining().len() <= self.s1.lenv() }
    /// what is still to be yielded
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<&'a T> { keep(self.s1_iter.remaining(), out_of::<S2, T>(*self.s2)) }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Union<'a, S1, S2, T> {
    /// the inner iterators are those of the two sets, part consumed
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { asks::<S1, T>(*self.s1) && asks::<S2, T>(*self.s2) && self.s1_iter.obeys_prophetic_iter_laws() && self.s1_iter.decrease() is Some && self.s1_iter.remaining().len() <= self.s1.lenv() && self.s2_iter.obeys_prophetic_iter_laws() && self.s2_iter.decrease() is Some && self.s2_iter.remaining().len() <= self.s2.lenv() }
    /// what is still to be yielded
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<&'a T> { if self.s1.lenv() > self.s2.lenv() { self.s1_iter.remaining() + keep(self.s2_iter.remaining(), out_of::<S1, T>(*self.s1)) } else { self.s2_iter.remaining() + keep(self.s1_iter.remaining(), out_of::<S2, T>(*self.s2)) } }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Intersection<'a, S1, S2, T> {
    /// the inner iterators are those of the two sets, part consumed
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { asks::<S1, T>(*self.s1) && asks::<S2, T>(*self.s2) && self.s1_iter.obeys_prophetic_iter_laws() && self.s1_iter.decrease() is Some && self.s1_iter.remaining().len() <= self.s1.lenv() && self.s2_iter.obeys_prophetic_iter_laws() && self.s2_iter.decrease() is Some && self.s2_iter.remaining().len() <= self.s2.lenv() }
    /// what is still to be yielded
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<&'a T> { if self.s1.lenv() < self.s2.lenv() { keep(self.s1_iter.remaining(), in_to::<S2, T>(*self.s2)) } else { keep(self.s2_iter.remaining(), in_to::<S1, T>(*self.s1)) } }
}
//@ fn Difference::new
//@ props C09,C10
    ensures counted(*s1, *s2) ==> res.wf(), res.s1 == s1, res.s2 == s2,
        res.todo() == keep(s1.items().as_ref(), out_of::<S2, T>(*s2)),
//@ endfn
//@ fn Difference@Iterator::next
//@ mode free
//@ rename difference_next
//@ rewrite Option<Self::Item> =>> Option<&'a T>
//@ props C09,C10
    requires old(self_).wf(),
    ensures final(self_).wf(), final(self_).s1 == old(self_).s1, final(self_).s2 == old(self_).s2,
        steps(old(self_).todo(), final(self_).todo(), res),
//@ ghost start
    let ghost o = *self_;
    proof { lemma_step::<&'a T>(); }
//@ loop 0
            invariant self_.wf(), self_.s1 == o.s1, self_.s2 == o.s2, self_.todo() == o.todo(), o == *old(self_),


            decreases self_.s1_iter.decrease()->0,
//@ ghost loop_begin 0
            proof { lemma_step::<&'a T>(); }
//@ endfn
//@ fn Difference@Iterator::size_hint
//@ mode free
//@ rename difference_size_hint
//@ props C10
//@ rewrite self.s1_iter.size_hint() =>> crate::set_traits::v_size_hint(&self.s1_iter)
    requires self_.wf(),
    ensures hinted(self_.todo().len(), res),
//@ ghost start
    proof { lemma_keep_len(self_.s1_iter.remaining(), out_of::<S2, T>(*self_.s2)); }
//@ endfn
//@ fn Union::new
//@ props C09,C10
    ensures counted(*s1, *s2) ==> res.wf(), res.s1 == s1, res.s2 == s2,
        res.todo() == if s1.lenv() > s2.lenv() { s1.items().as_ref() + keep(s2.items().as_ref(), out_of::<S1, T>(*s1)) } else { s2.items().as_ref() + keep(s1.items().as_ref(), out_of::<S2, T>(*s2)) },
//@ endfn
//@ fn Union@Iterator::next
//@ mode free
//@ rename union_next
//@ rewrite Option<Self::Item> =>> Option<&'a T>
//@ props C09,C10
    requires old(self_).wf(),
    ensures final(self_).wf(), final(self_).s1 == old(self_).s1, final(self_).s2 == old(self_).s2,
        steps(old(self_).todo(), final(self_).todo(), res),
//@ ghost start
    let ghost o = *self_;
    proof { lemma_step::<&'a T>(); }
//@ loop 0
            invariant self_.wf(), self_.s1 == o.s1, self_.s2 == o.s2, self_.todo() == o.todo(), o == *old(self_),
                o.s1.lenv() > o.s2.lenv(),
                self_.s1_iter.remaining().len() == 0,
            decreases self_.s2_iter.decrease()->0,
//@ ghost loop_begin 0
            proof { lemma_step::<&'a T>(); }
//@ loop 1
            invariant self_.wf(), self_.s1 == o.s1, self_.s2 == o.s2, self_.todo() == o.todo(), o == *old(self_),
                o.s1.lenv() <= o.s2.lenv(),
                self_.s2_iter.remaining().len() == 0,
            decreases self_.s1_iter.decrease()->0,
//@ ghost loop_begin 1
            proof { lemma_step::<&'a T>(); }
//@ endfn
//@ fn Union@Iterator::size_hint
//@ mode free
//@ rename union_size_hint
//@ props C10
//@ rewrite self.s1_iter.size_hint() =>> crate::set_traits::v_size_hint(&self.s1_iter)
//@ rewrite self.s2_iter.size_hint() =>> crate::set_traits::v_size_hint(&self.s2_iter)
    requires self_.wf(),
    ensures hinted(self_.todo().len(), res),
//@ ghost start
    proof { lemma_keep_len(self_.s1_iter.remaining(), out_of::<S2, T>(*self_.s2)); lemma_keep_len(self_.s2_iter.remaining(), out_of::<S1, T>(*self_.s1)); }
//@ endfn
//@ fn Intersection::new
//@ props C09,C10
    ensures counted(*s1, *s2) ==> res.wf(), res.s1 == s1, res.s2 == s2,
        res.todo() == if s1.lenv() < s2.lenv() { keep(s1.items().as_ref(), in_to::<S2, T>(*s2)) } else { keep(s2.items().as_ref(), in_to::<S1, T>(*s1)) },
//@ endfn
//@ fn Intersection@Iterator::next
//@ mode free
//@ rename intersection_next
//@ rewrite Option<Self::Item> =>> Option<&'a T>
//@ props C09,C10
    requires old(self_).wf(),
    ensures final(self_).wf(), final(self_).s1 == old(self_).s1, final(self_).s2 == old(self_).s2,
        steps(old(self_).todo(), final(self_).todo(), res),
//@ ghost start
    let ghost o = *self_;
    proof { lemma_step::<&'a T>(); }
//@ loop 0
            invariant self_.wf(), self_.s1 == o.s1, self_.s2 == o.s2, self_.todo() == o.todo(), o == *old(self_),
                o.s1.lenv() < o.s2.lenv(),

            decreases self_.s1_iter.decrease()->0,
//@ ghost loop_begin 0
            proof { lemma_step::<&'a T>(); }
//@ loop 1
            invariant self_.wf(), self_.s1 == o.s1, self_.s2 == o.s2, self_.todo() == o.todo(), o == *old(self_),
                o.s1.lenv() >= o.s2.lenv(),

            decreases self_.s2_iter.decrease()->0,
//@ ghost loop_begin 1
            proof { lemma_step::<&'a T>(); }
//@ endfn
//@ fn Intersection@Iterator::size_hint
//@ mode free
//@ rename intersection_size_hint
//@ props C10
    requires self_.wf(),
    ensures hinted(self_.todo().len(), res),
//@ ghost start
    proof { lemma_keep_len(self_.s1_iter.remaining(), in_to::<S2, T>(*self_.s2)); lemma_keep_len(self_.s2_iter.remaining(), in_to::<S1, T>(*self_.s1)); }
//@ endfn

/// `core::iter::Chain` of two differences (trusted): the first's elements, then the second's
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::accept_recursive_types(B)]
pub struct Chain<A, B> { x: core::marker::PhantomData<(A, B)> }
impl<A: Clone, B: Clone> Clone for Chain<A, B> {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Difference<'a, S1, S2, T> {
    #[verifier::external_body]
    pub fn chain(self, other: Difference<'a, S2, S1, T>) -> (r: Chain<Difference<'a, S1, S2, T>, Difference<'a, S2, S1, T>>)
        ensures r.todo() == self.todo() + other.todo()
    { unimplemented!() }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Chain<Difference<'a, S1, S2, T>, Difference<'a, S2, S1, T>> {
    #[verifier::prophetic]
    pub uninterp spec fn todo(&self) -> Seq<&'a T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>) ensures steps(old(self).todo(), final(self).todo(), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures hinted(self.todo().len(), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.todo().len() { unimplemented!() }
}
//@ type SymmetricDifference
impl<'a, S1: Set<T>, S2: Set<T>, T> Clone for SymmetricDifference<'a, S1, S2, T> where <S1 as SetIteration<T>>::Iterator<'a>: Clone, <S2 as SetIteration<T>>::Iterator<'a>: Clone {
//@ fn SymmetricDifference@Clone::clone
//@ mode bare
//@ props C09,C10
    ensures cloned(self.iter, res.iter),
//@ endfn
}
//@ fn SymmetricDifference::new
//@ props C09,C10
    ensures res.iter.todo() == keep(s1.items().as_ref(), out_of::<S2, T>(*s2)) + keep(s2.items().as_ref(), out_of::<S1, T>(*s1)),
//@ endfn
//@ fn SymmetricDifference@Iterator::next
//@ mode free
//@ rename symmetric_difference_next
//@ props C09,C10
    ensures steps(old(self_).iter.todo(), final(self_).iter.todo(), res),
//@ endfn
//@ fn SymmetricDifference@Iterator::size_hint
//@ mode free
//@ rename symmetric_difference_size_hint
//@ props C10
    ensures hinted(self_.iter.todo().len(), res),
//@ endfn
//@ fn SymmetricDifference@Iterator::count
//@ mode free
//@ rename symmetric_difference_count
//@ props C10
    ensures res == self_.iter.todo().len(),
//@ endfn
}
//@ module traits::set_ops
pub mod traits_set_ops {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::query::Len;
use crate::perm::*;
use crate::set_traits::*;
use crate::set_traits::Set;
use crate::sets_iterators::*;
pub open spec fn counted<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> bool { a.lenv() == a.items().len() && b.lenv() == b.items().len() && asks::<S1, T>(a) && asks::<S2, T>(b) }
pub trait SetOps<T> {
//@ fn trait SetOps::difference
//@ mode bare
//@ props C09,C10
    ensures counted(*self, *other) ==> res.wf(), res.todo() == keep(self.items().as_ref(), out_of::<ST, T>(*other)),
//@ endfn
//@ fn trait SetOps::union
//@ mode bare
//@ props C09,C10
    ensures counted(*self, *other) ==> res.wf(),
        res.todo() == if self.lenv() > other.lenv() { self.items().as_ref() + keep(other.items().as_ref(), out_of::<Self, T>(*self)) } else { other.items().as_ref() + keep(self.items().as_ref(), out_of::<ST, T>(*other)) },
//@ endfn
//@ fn trait SetOps::intersection
//@ mode bare
//@ props C09,C10
    ensures counted(*self, *other) ==> res.wf(),
        res.todo() == if self.lenv() < other.lenv() { keep(self.items().as_ref(), in_to::<ST, T>(*other)) } else { keep(other.items().as_ref(), in_to::<Self, T>(*self)) },
//@ endfn
//@ fn trait SetOps::is_subset
//@ mode bare
//@ props C11,C09
    requires asks::<ST, T>(*other),
    ensures forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) ==> res == subset(*self, *other),
//@ closure 0
|v: &T| -> (b: bool) requires other.qok(v) ensures b == other.has(v)
//@ ghost start
        proof {
            assert forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) implies by_items(*self, *other) by { lemma_by_items(*self, *other, same); }
        }
//@ endfn
//@ fn trait SetOps::is_superset
//@ mode bare
//@ props C11,C09
    requires asks::<Self, T>(*self),
    ensures forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) ==> res == subset(*other, *self),
//@ closure 0
|v: &T| -> (b: bool) requires self.qok(v) ensures b == self.has(v)
//@ ghost start
        proof {
            assert forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) implies by_items(*other, *self) by { lemma_by_items(*other, *self, same); }
        }
//@ endfn
//@ fn trait SetOps::is_disjoint
//@ mode bare
//@ props C11,C09
    requires asks::<Self, T>(*self), asks::<ST, T>(*other),
    ensures forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) ==> res == disjoint(*self, *other),
//@ closure 0
|v: &T| -> (b: bool) requires other.qok(v) ensures b == !other.has(v)
//@ closure 1
|v: &T| -> (b: bool) requires self.qok(v) ensures b == !self.has(v)
//@ ghost start
        proof {
            assert forall|same: spec_fn(T, T) -> bool| #[trigger] lawful_set(*self, same) && lawful_set(*other, same) implies by_items(*self, *other) && by_items(*other, *self) && disjoint(*self, *other) == disjoint(*other, *self) by {
                lemma_by_items(*self, *other, same); lemma_by_items(*other, *self, same);
            }
        }
//@ endfn
}
/// what lemma_subset_all says
pub open spec fn by_items<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> bool {
    &&& subset(a, b) == (forall|i: int| 0 <= i < a.items().len() ==> b.has(#[trigger] a.items().as_ref()[i]))
    &&& disjoint(a, b) == (forall|i: int| 0 <= i < a.items().len() ==> !b.has(#[trigger] a.items().as_ref()[i]))
    &&& subset(a, b) ==> a.lenv() <= b.lenv()
}
impl<ST: Set<T>, T> SetOps<T> for ST {}
//@ proof by-items C09,C11
pub proof fn lemma_by_items<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2, same: spec_fn(T, T) -> bool)
    requires lawful_set(a, same), lawful_set(b, same),
    ensures by_items(a, b), disjoint(a, b) == disjoint(b, a),
{
    lemma_subset_all(a, b, same);
    let e = a.items();
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e.as_ref()[i] == &e[i] by {}
    if forall|i: int| 0 <= i < e.len() ==> b.has(#[trigger] e.as_ref()[i]) {
        assert forall|i: int| 0 <= i < e.len() implies b.has(#[trigger] &e[i]) by { assert(b.has(e.as_ref()[i])); }
    }
    if forall|i: int| 0 <= i < e.len() ==> !b.has(#[trigger] e.as_ref()[i]) {
        assert forall|i: int| 0 <= i < e.len() implies !b.has(#[trigger] &e[i]) by { assert(!b.has(e.as_ref()[i])); }
    }
}
//@ endproof
/// (a trait of its own: Verus refuses a trait whose default method is used by a method it calls)
pub trait SetOpsSym<T> {
//@ fn trait SetOps::symmetric_difference
//@ mode bare
//@ props C09,C10
    ensures res.iter.todo() == keep(self.items().as_ref(), out_of::<ST, T>(*other)) + keep(other.items().as_ref(), out_of::<Self, T>(*self)),
//@ endfn
}
impl<ST: Set<T>, T> SetOpsSym<T> for ST {}
/// what an iterator has still to yield (for the trusted collection below)
pub trait Pending<'a, T: 'a>: Sized {
    #[verifier::prophetic]
    spec fn ready(&self) -> bool;
    #[verifier::prophetic]
    spec fn pending(&self) -> Seq<&'a T>;
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Pending<'a, T> for Difference<'a, S1, S2, T> {
    #[verifier::prophetic]
    open spec fn ready(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn pending(&self) -> Seq<&'a T> { self.todo() }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Pending<'a, T> for Union<'a, S1, S2, T> {
    #[verifier::prophetic]
    open spec fn ready(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn pending(&self) -> Seq<&'a T> { self.todo() }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Pending<'a, T> for Intersection<'a, S1, S2, T> {
    #[verifier::prophetic]
    open spec fn ready(&self) -> bool { self.wf() }
    #[verifier::prophetic]
    open spec fn pending(&self) -> Seq<&'a T> { self.todo() }
}
impl<'a, S1: Set<T>, S2: Set<T>, T> Pending<'a, T> for SymmetricDifference<'a, S1, S2, T> {
    #[verifier::prophetic]
    open spec fn ready(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn pending(&self) -> Seq<&'a T> { self.iter.todo() }
}
/// `.cloned().collect()` into a hash set (trusted: std and hashbrown)
#[verifier::external_body]
pub fn v_cloned_set<'a, T: Clone + 'a, I: Pending<'a, T>>(i: I) -> (r: crate::hashbrown::HashSet<T>)
    requires i.ready(),
    ensures r == crate::hashbrown::cloned_set(i.pending()),
{ unimplemented!() }
/// what the operators collect
pub open spec fn union_items<'a, S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> Seq<&'a T> {
    if a.lenv() > b.lenv() { a.items().as_ref() + keep(b.items().as_ref(), out_of::<S1, T>(a)) } else { b.items().as_ref() + keep(a.items().as_ref(), out_of::<S2, T>(b)) }
}
pub open spec fn intersection_items<'a, S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> Seq<&'a T> {
    if a.lenv() < b.lenv() { keep(a.items().as_ref(), in_to::<S2, T>(b)) } else { keep(b.items().as_ref(), in_to::<S1, T>(a)) }
}
pub open spec fn difference_items<'a, S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> Seq<&'a T> { keep(a.items().as_ref(), out_of::<S2, T>(b)) }
pub open spec fn symmetric_difference_items<'a, S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2) -> Seq<&'a T> {
    keep(a.items().as_ref(), out_of::<S2, T>(b)) + keep(b.items().as_ref(), out_of::<S1, T>(a))
}
//@ proof operators-are-the-set-operations C09
/// what the operators collect is the mathematical result, each element once
pub proof fn theorem_operators<S1: Set<T>, S2: Set<T>, T>(a: S1, b: S2, same: spec_fn(T, T) -> bool)
    requires lawful_set(a, same), lawful_set(b, same),
    ensures distinct_ref(union_items::<S1, S2, T>(a, b), same), forall|v: T| #[trigger] holds_ref(union_items::<S1, S2, T>(a, b), same, v) == (a.has(&v) || b.has(&v)),
        distinct_ref(intersection_items::<S1, S2, T>(a, b), same), forall|v: T| #[trigger] holds_ref(intersection_items::<S1, S2, T>(a, b), same, v) == (a.has(&v) && b.has(&v)),
        distinct_ref(difference_items::<S1, S2, T>(a, b), same), forall|v: T| #[trigger] holds_ref(difference_items::<S1, S2, T>(a, b), same, v) == (a.has(&v) && !b.has(&v)),
        distinct_ref(symmetric_difference_items::<S1, S2, T>(a, b), same), forall|v: T| #[trigger] holds_ref(symmetric_difference_items::<S1, S2, T>(a, b), same, v) == (a.has(&v) != b.has(&v)),
{
    if a.lenv() > b.lenv() { theorem_union(a, b, same, union_items::<S1, S2, T>(a, b)); } else { theorem_union(b, a, same, union_items::<S1, S2, T>(a, b)); }
    if a.lenv() < b.lenv() { theorem_intersection(a, b, same, intersection_items::<S1, S2, T>(a, b)); } else { theorem_intersection(b, a, same, intersection_items::<S1, S2, T>(a, b)); }
    theorem_difference(a, b, same, difference_items::<S1, S2, T>(a, b));
    theorem_symmetric_difference(a, b, same, symmetric_difference_items::<S1, S2, T>(a, b));
}
//@ endproof
}
