/// std iterators: what remains, exactly (contracts assumed for std).
pub mod iter_specs {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
pub assume_specification<'a, T> [<core::slice::Iter<'a, T> as Iterator>::size_hint] (i: &core::slice::Iter<'a, T>) -> (r: (usize, Option<usize>))
    ensures r.0 == IteratorSpec::remaining(i).len(), r.1 == Some(r.0);
pub assume_specification<'a, T> [<core::slice::Iter<'a, T> as Iterator>::count] (i: core::slice::Iter<'a, T>) -> (r: usize)
    ensures r == IteratorSpec::remaining(&i).len();
pub assume_specification<'a, T> [<core::slice::IterMut<'a, T> as Iterator>::size_hint] (i: &core::slice::IterMut<'a, T>) -> (r: (usize, Option<usize>))
    ensures r.0 == IteratorSpec::remaining(i).len(), r.1 == Some(r.0);
pub assume_specification<'a, T> [<core::slice::IterMut<'a, T> as Iterator>::count] (i: core::slice::IterMut<'a, T>) -> (r: usize)
    ensures r == IteratorSpec::remaining(&i).len();
pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::IntoIter<T, A> as Iterator>::size_hint] (i: &std::vec::IntoIter<T, A>) -> (r: (usize, Option<usize>))
    ensures r.0 == IteratorSpec::remaining(i).len(), r.1 == Some(r.0);
pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::IntoIter<T, A> as Iterator>::count] (i: std::vec::IntoIter<T, A>) -> (r: usize)
    ensures r == IteratorSpec::remaining(&i).len();
pub assume_specification<'a, T> [<core::slice::Iter<'a, T> as Clone>::clone] (i: &core::slice::Iter<'a, T>) -> (r: core::slice::Iter<'a, T>)
    ensures r == *i;
/// r is the fold of f over s from init
pub open spec fn folds<B, I, F: FnMut(B, I) -> B>(f: F, init: B, s: Seq<I>, r: B) -> bool {
    exists|a: Seq<B>| #[trigger] folding(f, init, s, a) && a[s.len() as int] == r
}
pub open spec fn folding<B, I, F: FnMut(B, I) -> B>(f: F, init: B, s: Seq<I>, a: Seq<B>) -> bool {
    a.len() == s.len() + 1 && a[0] == init && forall|i: int| 0 <= i < s.len() ==> f.ensures((a[i], #[trigger] s[i]), a[i + 1])
}
pub open spec fn firsts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn pairs<'a, K, V>(s: Seq<&'a (K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
pub open spec fn mapped<A, B>(o: Option<A>, f: spec_fn(A) -> B) -> Option<B> { match o { Some(x) => Some(f(x)), None => None } }
/// the mutable references yielded: one to each entry, in order
#[verifier::prophetic]
pub open spec fn yields_mut<T>(before: Seq<T>, after: Seq<T>, s: Seq<&mut T>) -> bool {
    s.len() == before.len() && after.len() == before.len() && forall|i: int| 0 <= i < before.len() ==> *(#[trigger] s[i]) == before[i] && *final(s[i]) == after[i]
}
pub proof fn lemma_covers<K, V: PartialEq, M: crate::query::MapQuery<K, V>>(e: Seq<(K, V)>, m: M)
    ensures crate::query::covers(e, m) == (e.len() == m.lenv() && forall|i: int| 0 <= i < e.len() ==> crate::query::agrees(m, (*(#[trigger] pairs(e.as_ref())[i]).0, *pairs(e.as_ref())[i].1))),
        forall|i: int| 0 <= i < e.len() ==> *(#[trigger] pairs(e.as_ref())[i]).0 == e[i].0,
{
    let p = pairs(e.as_ref());
    assert forall|i: int| 0 <= i < e.len() implies (*(#[trigger] p[i]).0, *p[i].1) == e[i] by { }
    if forall|i: int| 0 <= i < e.len() ==> crate::query::agrees(m, (*(#[trigger] p[i]).0, *p[i].1)) {
        assert forall|i: int| 0 <= i < e.len() implies crate::query::agrees(m, #[trigger] e[i]) by { assert(crate::query::agrees(m, (*p[i].0, *p[i].1))); }
    }
}
/// an iterator of known contents
#[verifier::prophetic]
pub open spec fn fresh<I: Iterator>(i: I, s: Seq<I::Item>) -> bool {
    i.obeys_prophetic_iter_laws() && i.decrease() is Some && i.remaining() =~= s
}
}
pub mod maps { pub use crate::maps_iterators::*; }

//@ module maps::iterators
pub mod maps_iterators {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::iter::IteratorSpecImpl;
use crate::prelude::*;
use crate::iter_specs::*;

//@ type Iter
impl<'a, K, V> Clone for Iter<'a, K, V> {
//@ fn Iter@Clone::clone
//@ mode bare
//@ props C08
    ensures res == *self,
//@ endfn
}
impl<'a, K, V> IteratorSpecImpl for Iter<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { pairs(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: &'a (K, V)| (&e.0, &e.1)) }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
//@ fn Iter@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn Iter::new
//@ props C08
    ensures fresh(res, pairs(entries@.as_ref())),
//@ endfn
impl<'a, K, V> Iter<'a, K, V> {
//@ fn Iter@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn Iter@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn Iter@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn Iter@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> (&'a K, &'a V)
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: (&'a K, &'a V)| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: (&'a K, &'a V)| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type Keys
impl<'a, K, V> Clone for Keys<'a, K, V> {
//@ fn Keys@Clone::clone
//@ mode bare
//@ props C08
    ensures res == *self,
//@ endfn
}
impl<'a, K, V> IteratorSpecImpl for Keys<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { firsts(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (&'a K, &'a V)| e.0) }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
//@ fn Keys@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn Keys::new
//@ props C08
    ensures fresh(res, firsts(pairs(entries@.as_ref()))),
//@ endfn
impl<'a, K, V> Keys<'a, K, V> {
//@ fn Keys@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn Keys@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn Keys@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn Keys@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> &'a K
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: &'a K| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: &'a K| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type Values
impl<'a, K, V> Clone for Values<'a, K, V> {
//@ fn Values@Clone::clone
//@ mode bare
//@ props C08
    ensures res == *self,
//@ endfn
}
impl<'a, K, V> IteratorSpecImpl for Values<'a, K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { seconds(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (&'a K, &'a V)| e.1) }
}
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
//@ fn Values@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn Values::new
//@ props C08
    ensures fresh(res, seconds(pairs(entries@.as_ref()))),
//@ endfn
impl<'a, K, V> Values<'a, K, V> {
//@ fn Values@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn Values@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn Values@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn Values@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> &'a V
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: &'a V| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: &'a V| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type IntoIter
impl<K, V> IteratorSpecImpl for IntoIter<K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { IteratorSpec::remaining(&self.inner) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { IteratorSpec::peek(&self.inner, i) }
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
//@ fn IntoIter@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn IntoIter::new
//@ props C08
    ensures fresh(res, entries@),
//@ endfn
impl<K, V> IntoIter<K, V> {
//@ fn IntoIter@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn IntoIter@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn IntoIter@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn IntoIter@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> (K, V)
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: (K, V)| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: (K, V)| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type IntoKeys
impl<K, V> IteratorSpecImpl for IntoKeys<K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { firsts(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (K, V)| e.0) }
}
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
//@ fn IntoKeys@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn IntoKeys::new
//@ props C08
    ensures fresh(res, firsts(entries@)),
//@ endfn
impl<K, V> IntoKeys<K, V> {
//@ fn IntoKeys@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn IntoKeys@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn IntoKeys@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn IntoKeys@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> K
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: K| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: K| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type IntoValues
impl<K, V> IteratorSpecImpl for IntoValues<K, V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { seconds(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (K, V)| e.1) }
}
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
//@ fn IntoValues@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn IntoValues::new
//@ props C08
    ensures fresh(res, seconds(entries@)),
//@ endfn
impl<K, V> IntoValues<K, V> {
//@ fn IntoValues@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn IntoValues@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn IntoValues@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn IntoValues@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> V
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: V| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: V| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type IterMut
impl<'a, K, V> IterMut<'a, K, V> {
    /// the entries still to be yielded
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<&'a mut (K, V)> { IteratorSpec::remaining(&self.inner) }
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
//@ fn IterMut@Iterator::next
//@ mode bare
//@ attr pub
//@ props C07,C08
//@ rewrite Self::Item =>> (&'a K, &'a mut V)
    requires old(self).wf(),
    ensures final(self).wf(), (res is Some) == (old(self).todo().len() > 0), final(self).todo() == if res is Some { old(self).todo().drop_first() } else { old(self).todo() },
        res is Some ==> ({ let e = old(self).todo()[0]; *res->Some_0.0 == e.0 && *res->Some_0.1 == e.1 && *final(e) == (e.0, *final(res->Some_0.1)) }),
//@ endfn
//@ fn IterMut@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res.0 == self.todo().len(), res.1 == Some(res.0),
//@ endfn
//@ fn IterMut@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res == self.todo().len(),
//@ endfn
//@ fn IterMut@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res == self.todo().len(),
//@ endfn
}
//@ fn IterMut::new
//@ props C07,C08
    ensures res.wf(), res.todo().len() == old(entries)@.len(), final(entries)@.len() == old(entries)@.len(), forall|i: int| 0 <= i < old(entries)@.len() ==> *(#[trigger] res.todo()[i]) == old(entries)@[i] && *final(res.todo()[i]) == final(entries)@[i],
//@ endfn

//@ type ValuesMut
impl<'a, K, V> ValuesMut<'a, K, V> {
    /// the entries still to be yielded
    #[verifier::prophetic]
    pub open spec fn todo(&self) -> Seq<&'a mut (K, V)> { self.inner.todo() }
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { self.inner.wf() }
//@ fn ValuesMut@Iterator::next
//@ mode bare
//@ attr pub
//@ props C07,C08
//@ rewrite Self::Item =>> &'a mut V
    requires old(self).wf(),
    ensures final(self).wf(), (res is Some) == (old(self).todo().len() > 0), final(self).todo() == if res is Some { old(self).todo().drop_first() } else { old(self).todo() },
        res is Some ==> ({ let e = old(self).todo()[0]; *res->Some_0 == e.1 && *final(e) == (e.0, *final(res->Some_0)) }),
//@ endfn
//@ fn ValuesMut@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res.0 == self.todo().len(), res.1 == Some(res.0),
//@ endfn
//@ fn ValuesMut@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res == self.todo().len(),
//@ endfn
//@ fn ValuesMut@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires self.wf(),
    ensures res == self.todo().len(),
//@ endfn
}
//@ fn ValuesMut::new
//@ props C07,C08
    ensures res.wf(), res.todo().len() == old(entries)@.len(), final(entries)@.len() == old(entries)@.len(), forall|i: int| 0 <= i < old(entries)@.len() ==> *(#[trigger] res.todo()[i]) == old(entries)@[i] && *final(res.todo()[i]) == final(entries)@[i],
//@ endfn

}
//@ module sets::iterators
pub mod sets_iterators_plain {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::iter::IteratorSpecImpl;
use crate::prelude::*;
use crate::iter_specs::*;

//@ type Iter
impl<'a, T> Clone for Iter<'a, T> {
//@ fn Iter@Clone::clone
//@ mode bare
//@ props C08
    ensures cloned(self.inner, res.inner),
//@ endfn
}
impl<'a, T> IteratorSpecImpl for Iter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { firsts(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (&'a T, &'a ())| e.0) }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
//@ fn Iter@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn Iter::new
//@ props C08
    ensures res.inner == inner,
//@ endfn
impl<'a, T> Iter<'a, T> {
//@ fn Iter@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn Iter@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn Iter@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn Iter@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> &'a T
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: &'a T| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: &'a T| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

//@ type IntoIter
impl<T> IteratorSpecImpl for IntoIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { IteratorSpec::obeys_prophetic_iter_laws(&self.inner) }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { firsts(IteratorSpec::remaining(&self.inner)) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { IteratorSpec::will_return_none(&self.inner) }
    open spec fn decrease(&self) -> Option<nat> { IteratorSpec::decrease(&self.inner) }
    open spec fn peek(&self, i: int) -> Option<Self::Item> { mapped(IteratorSpec::peek(&self.inner, i), |e: (T, ())| e.0) }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
//@ fn IntoIter@Iterator::next
//@ mode bare
//@ props C08
//@ endfn
}
//@ fn IntoIter::new
//@ props C08
    ensures res.inner == inner,
//@ endfn
impl<T> IntoIter<T> {
//@ fn IntoIter@Iterator::size_hint
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res.0 == IteratorSpec::remaining(self).len(), res.1 == Some(res.0),
//@ endfn
//@ fn IntoIter@Iterator::count
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(&self),
    ensures res == IteratorSpec::remaining(&self).len(),
//@ endfn
//@ fn IntoIter@ExactSizeIterator::len
//@ mode bare
//@ attr pub
//@ props C08
    requires IteratorSpec::obeys_prophetic_iter_laws(self),
    ensures res == IteratorSpec::remaining(self).len(),
//@ endfn
//@ fn IntoIter@Iterator::fold
//@ mode bare
//@ attr pub
//@ props C08
//@ rewrite Self::Item =>> T
    requires IteratorSpec::obeys_prophetic_iter_laws(&self), IteratorSpec::decrease(&self) is Some, forall|b: B, x: T| #[trigger] f.requires((b, x)),
    ensures folds(f, init, IteratorSpec::remaining(&self), res),
//@ ghost start
        let ghost s0 = IteratorSpec::remaining(&self);
        let ghost r0 = IteratorSpec::remaining(&self.inner);
        let ghost f0 = f;
        let ghost mut accs = seq![init];
//@ loop 0
            invariant it0.seq() == r0, s0.len() == r0.len(), f == f0, accs.len() == it0.index() + 1, accs[0] == init, accs[it0.index() as int] == __acc,
                forall|b: B, x: T| #[trigger] f.requires((b, x)),
                forall|i: int| 0 <= i < it0.index() ==> f.ensures((accs[i], #[trigger] s0[i]), accs[i + 1]),
//@ ghost loop_end 0
            proof {
                let ghost a1 = accs.push(__acc);
                assert(f.ensures((a1[it0.index() as int], s0[it0.index() as int]), a1[it0.index() + 1]));
                accs = a1;
            }
//@ ghost after_loop 0
        proof { assert(folding(f, init, s0, accs)); }
//@ endfn
}

}
