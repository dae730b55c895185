#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_parens, unused_braces)]
#![feature(const_destruct, allocator_api, sized_hierarchy)]
#![verifier::allow(undeclared_external_trait)]
extern crate alloc;
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// Hand-written vocabulary: contract-carrying stand-ins for raw pointers and unchecked indexing (verified, not
/// trusted), contracts assumed for std / dependency functions (trusted, listed in the evidence), spec functions, lemmas.
pub mod prelude {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;

// ---------- raw pointers and unchecked indexing: verified stand-ins ----------

/// A raw const pointer into a slice: the slice it was derived from, and an offset. Dereferencing requires that the
/// offset is inside the slice; stepping requires that the result is inside it or one past its end.
pub struct VPtr<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> Copy for VPtr<'a, T> {}
impl<'a, T> Clone for VPtr<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T> VPtr<'a, T> {
    pub fn v_as_ref(self) -> (r: &'a T)
        requires self.pos < self.s@.len(),
        ensures *r == self.s@[self.pos as int],
    { &self.s[self.pos] }
    pub fn add(self, n: usize) -> (r: Self)
        requires self.pos + n <= self.s@.len(),
        ensures r.s == self.s, r.pos == self.pos + n,
    { let _l = self.s.len(); VPtr { s: self.s, pos: self.pos + n } }
}
/// A raw mut pointer into a slice (moved, not copied, so that a write through it is attributed to it).
pub struct VPtrMut<'a, T> { pub s: &'a mut [T], pub pos: usize }
impl<'a, T> VPtrMut<'a, T> {
    pub fn v_as_ref(&self) -> (r: &T)
        requires self.pos < self.s@.len(),
        ensures *r == old(self.s)@[self.pos as int],
    { &self.s[self.pos] }
    pub fn v_as_mut(self) -> (r: &'a mut T)
        requires self.pos < self.s@.len(),
        ensures *r == old(self.s)@[self.pos as int], final(self.s)@ == old(self.s)@.update(self.pos as int, *final(r)),
    { &mut self.s[self.pos] }
    pub fn add(self, n: usize) -> (r: Self)
        requires self.pos + n <= self.s@.len(),
        ensures r.s@ == old(self.s)@, final(r.s)@ == final(self.s)@, r.pos == self.pos + n,
    { let _l = self.s.len(); VPtrMut { s: self.s, pos: self.pos + n } }
}
pub trait VSlice<T> {
    spec fn vs(&self) -> Seq<T>;
    fn v_get_unchecked(&self, i: usize) -> (r: &T)
        requires i < self.vs().len(),
        ensures *r == self.vs()[i as int];
    fn v_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).vs().len(),
        ensures *r == old(self).vs()[i as int], final(self).vs() == old(self).vs().update(i as int, *final(r));
    fn v_get_unchecked_range(&self, r: core::ops::Range<usize>) -> (res: &[T])
        requires r.start <= r.end <= self.vs().len(),
        ensures res@ == self.vs().subrange(r.start as int, r.end as int);
    fn v_get_unchecked_range_mut(&mut self, r: core::ops::Range<usize>) -> (res: &mut [T])
        requires r.start <= r.end <= old(self).vs().len(),
        ensures res@ == old(self).vs().subrange(r.start as int, r.end as int),
            final(res)@.len() == res@.len() ==> final(self).vs() == old(self).vs().subrange(0, r.start as int) + final(res)@ + old(self).vs().subrange(r.end as int, old(self).vs().len() as int);
    fn v_as_ptr(&self) -> (r: VPtr<'_, T>)
        ensures r.s@ == self.vs(), r.pos == 0;
    fn v_as_mut_ptr(&mut self) -> (r: VPtrMut<'_, T>)
        ensures r.s@ == old(self).vs(), r.pos == 0, final(r.s)@ == final(self).vs();
}
impl<T> VSlice<T> for [T] {
    open spec fn vs(&self) -> Seq<T> { self@ }
    fn v_get_unchecked(&self, i: usize) -> (r: &T) { assert(self.vs() == self@); &self[i] }
    fn v_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
    fn v_get_unchecked_range(&self, r: core::ops::Range<usize>) -> (res: &[T]) {
        vstd::slice::slice_subrange(self, r.start, r.end)
    }
    fn v_get_unchecked_range_mut(&mut self, r: core::ops::Range<usize>) -> (res: &mut [T]) {
        let (a, b) = self.split_at_mut(r.start);
        let (m, c) = b.split_at_mut(r.end - r.start);
        m
    }
    fn v_as_mut_ptr(&mut self) -> (r: VPtrMut<'_, T>) { VPtrMut { s: self, pos: 0 } }
    fn v_as_ptr(&self) -> (r: VPtr<'_, T>) { VPtr { s: self, pos: 0 } }
}


// ---------- panics ----------
/// A panic that the contract does not allow.
#[verifier::external_body]
pub fn v_unreachable() -> (r: !)
    requires false,
{ panic!() }
/// A panic that the contract of the calling function allows under a condition asserted just before the call.
/// what `format!` makes: nothing is said about the text
#[verifier::external_body]
pub fn v_some_text() -> String { unimplemented!() }
#[verifier::external_body]
pub fn v_diverge() -> (r: !) { panic!() }

// ---------- powers of two ----------
pub open spec fn is_p2(x: int) -> bool { exists|k: nat| k < 64 && x == #[trigger] vstd::arithmetic::power2::pow2(k) }

pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool)
    ensures r == is_p2(x as int);
/// documented: smallest power of two >= x; overflow panics in debug builds (hence the precondition)
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000,
    ensures npot(r as int, x as int), x >= 1 ==> r < 2 * x;
/// r is the smallest power of two that is at least x
pub open spec fn npot(r: int, x: int) -> bool { is_p2(r) && x <= r && forall|p: int| #[trigger] is_p2(p) && x <= p ==> r <= p }

/// masking with p-1 is reduction modulo p when p is a power of two
pub proof fn lemma_mask_is_mod(h: u64, mask: u64, p: int)
    requires is_p2(p), mask == p - 1,
    ensures p > 0, h & mask == h as int % p, 0 <= h & mask < p,
{
    let k = choose|k: nat| k < 64 && p == #[trigger] vstd::arithmetic::power2::pow2(k);
    vstd::arithmetic::power2::lemma_pow2_pos(k);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(h, k);
    assert(vstd::bits::low_bits_mask(k) == p - 1);
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(k, 64);
    vstd::arithmetic::power2::lemma2_to64();
    assert(p as u64 == p);
    vstd::arithmetic::div_mod::lemma_mod_bound(h as int, p);
}

// ---------- std contracts (assumed) ----------
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures o == (match r { Ok(v) => v, Err(_) => d });
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
/// `(a..b).collect::<Box<[u64]>>()`
#[verifier::external_body]
pub fn v_collect_u64_range(r: core::ops::Range<u64>) -> (b: Box<[u64]>)
    ensures b@.len() == if r.start <= r.end { r.end - r.start } else { 0 }
{ r.collect() }
/// `<[T]>::fill`
#[verifier::external_body]
pub fn v_fill<T: Clone + Copy>(s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> final(s)@[i] == v
{ s.fill(v) }
/// `Iterator::collect::<Vec<u64>>()`; a Vec's allocation is at most isize::MAX bytes
#[verifier::external_body]
pub fn v_collect_vec_u64<I: Iterator<Item = u64>>(i: I) -> (v: Vec<u64>)
    requires i.obeys_prophetic_iter_laws(),
    ensures v@ == i.remaining(), v@.len() <= 0x1000_0000_0000_0000
{ i.collect() }
pub proof fn lemma_pow2_gap1(x: int, y: int)
    requires is_p2(x), is_p2(y),
    ensures x > 0, y > 0, x < y ==> 2 * x <= y,
{
    use vstd::arithmetic::power2::*;
    let a = choose|k: nat| k < 64 && x == #[trigger] pow2(k);
    let b = choose|k: nat| k < 64 && y == #[trigger] pow2(k);
    lemma_pow2_pos(a);
    lemma_pow2_pos(b);
    if x < y {
        if b < a { lemma_pow2_strictly_increases(b, a); }
        assert(a < b);
        lemma_pow2_unfold((a + 1) as nat);
        if a + 1 < b { lemma_pow2_strictly_increases((a + 1) as nat, b); }
    }
}
pub proof fn lemma_pow2_values()
    ensures is_p2(1), is_p2(2), is_p2(0x4000_0000_0000_0000), is_p2(0x8000_0000_0000_0000), !is_p2(0),
{
    use vstd::arithmetic::power2::*;
    lemma2_to64();
    lemma2_to64_rest();
    assert(1 == pow2(0nat));
    assert(2 == pow2(1nat));
    assert(0x4000_0000_0000_0000 == pow2(62nat));
    assert(0x8000_0000_0000_0000 == pow2(63nat));
    if is_p2(0) { lemma_pow2_gap1(0, 0); }
}
/// consecutive powers of two
pub proof fn lemma_pow2_gap()
    ensures forall|x: int, y: int| #[trigger] is_p2(x) && #[trigger] is_p2(y) && x < y ==> 2 * x <= y,
        is_p2(1), is_p2(0x4000_0000_0000_0000), is_p2(0x8000_0000_0000_0000), !is_p2(0),
        forall|x: int| #[trigger] is_p2(x) ==> x > 0,
{
    lemma_pow2_values();
    assert forall|x: int, y: int| #[trigger] is_p2(x) && #[trigger] is_p2(y) && x < y implies 2 * x <= y by { lemma_pow2_gap1(x, y); }
    assert forall|x: int| #[trigger] is_p2(x) implies x > 0 by { lemma_pow2_gap1(x, x); }
}
/// `<[usize]>::contains`
#[verifier::external_body]
pub fn v_slice_contains(s: &[usize], x: &usize) -> (r: bool)
    ensures r == s@.contains(*x)
{ s.contains(x) }
/// `Vec<T>::try_into::<[T; N]>()`, panicking on a length mismatch
#[verifier::external_body]
pub fn v_vec_into_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N])
    ensures v@.len() == N, r@ == v@
{ match v.try_into() { Ok(a) => a, Err(_) => panic!() } }
/// `vec![a, b, ...]` (trusted)
#[verifier::external_body]
pub fn v_vec_of<T, const N: usize>(a: [T; N]) -> (v: Vec<T>) ensures v@ == a@ { Vec::from(a) }
/// `vec![e; n]` (trusted)
#[verifier::external_body]
pub fn v_from_elem<T: Copy>(e: T, n: usize) -> (v: Vec<T>) ensures v@.len() == n, forall|i: int| 0 <= i < n ==> v@[i] == e { vec![e; n] }
/// what an iterable yields, and collecting it (trusted)
pub uninterp spec fn collected<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::external_body]
pub fn v_collect<I: IntoIterator>(i: I) -> (r: Vec<I::Item>) ensures r@ == collected(i) { i.into_iter().collect() }
/// `v.into_iter().map(f).collect()` (trusted): one result of f per element, in order
#[verifier::external_body]
pub fn v_vec_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| #![trigger v@[i]] #![trigger r@[i]] 0 <= i < v@.len() ==> f.ensures((v@[i],), r@[i]),
{ v.into_iter().map(f).collect() }
/// `it.into_iter().map(f)` (trusted): one result of f per element, in order
#[verifier::external_body]
pub fn v_map_all<I: IntoIterator, U, F: Fn(I::Item) -> U>(it: I, f: F) -> (r: std::vec::IntoIter<U>)
    requires forall|i: int| 0 <= i < collected(it).len() ==> f.requires((#[trigger] collected(it)[i],)),
    ensures collected(r).len() == collected(it).len(), forall|i: int| #![trigger collected(it)[i]] #![trigger collected(r)[i]] 0 <= i < collected(it).len() ==> f.ensures((collected(it)[i],), collected(r)[i]),
{ it.into_iter().map(f).collect::<Vec<_>>().into_iter() }
#[verifier::external_body]
pub fn v_map_array<T, U, F: Fn(T) -> U, const N: usize>(it: [T; N], f: F) -> (r: std::vec::IntoIter<U>)
    requires forall|i: int| 0 <= i < N ==> f.requires((#[trigger] it@[i],)),
    ensures collected(r).len() == N, forall|i: int| #![trigger it@[i]] #![trigger collected(r)[i]] 0 <= i < N ==> f.ensures((it@[i],), collected(r)[i]),
{ it.into_iter().map(f).collect::<Vec<_>>().into_iter() }
/// `slice::Iter::map(f)` (trusted): one result of f per element, in order
#[verifier::external_body]
pub fn v_iter_map<'a, T, U, F: Fn(&'a T) -> U>(it: core::slice::Iter<'a, T>, f: F) -> (r: std::vec::IntoIter<U>)
    requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((#[trigger] it.remaining()[i],)),
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == it.remaining().len(),
       forall|i: int| #![trigger it.remaining()[i]] #![trigger r.remaining()[i]] 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), r.remaining()[i]),
{ it.map(f).collect::<Vec<U>>().into_iter() }
/// `s.iter().map(f)`, its items computed at once (trusted)
#[verifier::external_body]
pub fn v_iter_map_vec<'a, T, U, F: Fn(&'a T) -> U>(it: core::slice::Iter<'a, T>, f: F) -> (r: Vec<U>)
    requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((#[trigger] it.remaining()[i],)),
    ensures r@.len() == it.remaining().len(),
       forall|i: int| #![trigger it.remaining()[i]] #![trigger r@[i]] 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), r@[i]),
{ it.map(f).collect::<Vec<U>>() }
/// `vec![e; n]`-style and `Vec::resize_with` (trusted)
pub trait VResize<T> {
    spec fn vr(&self) -> Seq<T>;
    fn v_resize_with<F: Fn() -> T>(&mut self, n: usize, f: F)
        requires f.requires(()),
        ensures final(self).vr().len() == n,
            forall|i: int| 0 <= i < n && i < old(self).vr().len() ==> final(self).vr()[i] == old(self).vr()[i],
            forall|i: int| old(self).vr().len() <= i < n ==> f.ensures((), #[trigger] final(self).vr()[i]);
}
impl<T> VResize<T> for Vec<T> {
    open spec fn vr(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_resize_with<F: Fn() -> T>(&mut self, n: usize, f: F) { self.resize_with(n, || f()) }
}
/// derived `PartialEq for Ordering`
pub axiom fn axiom_ordering_eq()
    ensures <core::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
        forall|a: core::cmp::Ordering, b: core::cmp::Ordering| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
/// identity conversion `impl<T> From<T> for T`
pub axiom fn axiom_usize_identity_conversions()
    ensures
        <usize as vstd::std_specs::convert::IntoSpec<usize>>::obeys_into_spec(),
        forall|x: usize| #[trigger] <usize as vstd::std_specs::convert::IntoSpec<usize>>::into_spec(x) == x,
        <usize as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec(),
        forall|x: usize| #[trigger] <usize as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(x) == Ok::<usize, core::convert::Infallible>(x);

pub assume_specification [usize::trailing_zeros] (x: usize) -> (r: u32)
    ensures r <= 64, forall|k: nat| k < 64 && x == #[trigger] vstd::arithmetic::power2::pow2(k) ==> r == k;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub open spec fn ord_rev(o: core::cmp::Ordering) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less }
}
pub assume_specification [core::cmp::Ordering::reverse] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == ord_rev(o);
/// `Box::<[T]>::default()`
#[verifier::external_body]
pub fn v_empty_box<T>() -> (r: Box<[T]>) ensures r@.len() == 0 { Box::default() }
/// the storage of a collection: a boxed slice or an array (conversions of std; the array ones are trusted)
pub trait VStore<T>: Sized {
    spec fn st(&self) -> Seq<T>;
    fn v_as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).st(), final(self).st() == final(r)@;
    fn v_into_box(self) -> (r: Box<[T]>) ensures r@ == self.st();
    fn v_into_vec(self) -> (r: Vec<T>) ensures r@ == self.st();
}
impl<T> VStore<T> for Box<[T]> {
    open spec fn st(&self) -> Seq<T> { self@ }
    fn v_as_mut_slice(&mut self) -> (r: &mut [T]) { &mut **self }
    fn v_into_box(self) -> (r: Box<[T]>) { self }
    fn v_into_vec(self) -> (r: Vec<T>) { self.into_vec() }
}
impl<T, const N: usize> VStore<T> for [T; N] {
    open spec fn st(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_as_mut_slice(&mut self) -> (r: &mut [T]) { self }
    #[verifier::external_body]
    fn v_into_box(self) -> (r: Box<[T]>) { self.into() }
    #[verifier::external_body]
    fn v_into_vec(self) -> (r: Vec<T>) { Vec::from(self) }
}
/// `Ordering as usize`: the discriminants are -1, 0 and 1 (documented: #[repr(i8)])
#[verifier::external_body]
pub fn v_ordering_as_usize(o: core::cmp::Ordering) -> (r: usize)
    ensures r == match o { core::cmp::Ordering::Less => usize::MAX, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 }
{ o as usize }

} // mod prelude
