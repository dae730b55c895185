//@ module hashers
/// Hashing with std's BuildHasher and Hash (trusted: a fixed function of the hasher and of the contents hashed).
pub mod hashing {
use vstd::prelude::*;
use core::hash::*;
use vstd::string::*;
/// stand-ins for the types that only appear as defaults of type parameters
pub struct DefaultBuildHasher { pub x: u8 }
impl BuildHasher for DefaultBuildHasher {
    type Hasher = std::hash::DefaultHasher;
    #[verifier::external_body]
    fn build_hasher(&self) -> std::hash::DefaultHasher { unimplemented!() }
}
impl Default for DefaultBuildHasher {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}
pub struct FixedState { pub seed: u64 }
impl FixedState { pub fn with_seed(seed: u64) -> (r: Self) ensures r.seed == seed { FixedState { seed } } }
impl BuildHasher for FixedState {
    type Hasher = std::hash::DefaultHasher;
    #[verifier::external_body]
    fn build_hasher(&self) -> std::hash::DefaultHasher { unimplemented!() }
}
pub uninterp spec fn hash_seq<BH, T>(bh: BH, s: Seq<T>) -> u64;
pub uninterp spec fn hash_val<BH, T: ?Sized>(bh: BH, t: &T) -> u64;
pub uninterp spec fn str_of<AR>(a: &AR) -> &str;
#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized { type ExternalTraitSpecificationFor: AsRef<T>; }
/// `AsRef<str>::as_ref` (assumed to compute a function of the value)
pub trait VAsStr: Sized { fn v_as_ref(&self) -> (r: &str) ensures r == str_of(self); }
impl<AR: AsRef<str>> VAsStr for AR {
    #[verifier::external_body]
    fn v_as_ref(&self) -> (r: &str) { self.as_ref() }
}
pub trait VBuild: BuildHasher + Sized {
    fn v_hash_slice<T: Hash>(&self, s: &[T]) -> (r: u64) ensures r == hash_seq(*self, s@);
    fn v_hash_val<T: Hash + ?Sized>(&self, t: &T) -> (r: u64) ensures r == hash_val(*self, t);
}
impl<BH: BuildHasher> VBuild for BH {
    #[verifier::external_body]
    fn v_hash_slice<T: Hash>(&self, s: &[T]) -> (r: u64) { self.hash_one(s) }
    #[verifier::external_body]
    fn v_hash_val<T: Hash + ?Sized>(&self, t: &T) -> (r: u64) { self.hash_one(t) }
}
/// `Range<usize>::clone`
pub fn v_clone_range(r: &core::ops::Range<usize>) -> (c: core::ops::Range<usize>) ensures c == *r { r.start..r.end }
/// the hash of a key through a range of its elements counted from the left
pub open spec fn left_hash<BH, T>(bh: BH, s: Seq<T>, a: int, b: int) -> u64 { if s.len() < b { 0 } else { hash_seq(bh, s.subrange(a, b)) } }
/// and from the right
pub open spec fn right_hash<BH, T>(bh: BH, s: Seq<T>, a: int, b: int) -> u64 { if s.len() < b { 0 } else { hash_seq(bh, s.subrange(s.len() - b, s.len() - a)) } }
/// `utils::cold`: an empty function
pub fn cold() { }
}
//@ module hashers::bridge_hasher
pub mod hashers_bridge {
use vstd::prelude::*;
use core::hash::*;
use crate::query::Hasher;
use crate::hashing::*;
//@ type BridgeHasher
//@ fn BridgeHasher::new
//@ props C01,C05
    ensures res.bh == bh,
//@ endfn
impl<BH: Default> Default for BridgeHasher<BH> {
//@ fn BridgeHasher@Default::default
//@ mode bare
//@ props C15
//@ endfn
}
impl<T: ?Sized + Hash, BH: BuildHasher> Hasher<T> for BridgeHasher<BH> {
    open spec fn hok(&self) -> bool { true }
    open spec fn hashv(&self, t: &T) -> u64 { hash_val(self.bh, t) }
//@ fn BridgeHasher@Hasher::hash_one
//@ mode bare
//@ props C01,C05
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_val
//@ endfn
}
}
//@ module hashers::scalar_hasher
pub mod hashers_scalar {
use vstd::prelude::*;
use crate::query::*;
//@ type ScalarHasher
impl<S: Scalar> Hasher<S> for ScalarHasher {
    open spec fn hok(&self) -> bool { true }
    open spec fn hashv(&self, t: &S) -> u64 { t.idx() as u64 }
//@ fn ScalarHasher@Hasher::hash_one
//@ mode bare
//@ props C01,C04,C12
//@ endfn
}
}
//@ module hashers::length_hasher
pub mod hashers_length {
use vstd::prelude::*;
use crate::query::*;
//@ type LengthHasher
impl<T: ?Sized + Len> Hasher<T> for LengthHasher {
    open spec fn hok(&self) -> bool { true }
    open spec fn hashv(&self, t: &T) -> u64 { t.lenv() as u64 }
//@ fn LengthHasher@Hasher::hash_one
//@ mode bare
//@ props C05,C12
//@ endfn
}
}
//@ module hashers::left_range_hasher
pub mod hashers_left_range_hasher {
use vstd::prelude::*;
use core::hash::*;
use core::ops::Range;
use vstd::string::*;
use crate::query::Hasher;
use crate::hashing::*;
//@ type LeftRangeHasher
//@ fn LeftRangeHasher::new
//@ props C05,C12
    ensures res.bh == bh, res.range == range,
//@ endfn
//@ fn LeftRangeHasher@Default::default
//@ mode free
//@ rename left_default
//@ props C05,C15
    ensures res.range.start <= res.range.end,
//@ endfn
impl<T: Hash, BH: BuildHasher> Hasher<[T]> for LeftRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &[T]) -> u64 { left_hash(self.bh, t@, self.range.start as int, self.range.end as int) }
//@ fn LeftRangeHasher@Hasher<[T]>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite self.range.clone() =>> v_clone_range(&self.range)
//@ endfn
}
impl<BH: BuildHasher> Hasher<str> for LeftRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &str) -> u64 { left_hash(self.bh, t.spec_bytes(), self.range.start as int, self.range.end as int) }
//@ fn LeftRangeHasher@Hasher<str>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite self.range.clone() =>> v_clone_range(&self.range)
//@ endfn
}
impl<AR: AsRef<str>, BH: BuildHasher> Hasher<AR> for LeftRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &AR) -> u64 { left_hash(self.bh, str_of(t).spec_bytes(), self.range.start as int, self.range.end as int) }
//@ fn LeftRangeHasher@Hasher<AR>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite self.range.clone() =>> v_clone_range(&self.range)
//@ rewrite value.as_ref() =>> value.v_as_ref()
//@ endfn
}
//@ proof LeftRangeHasher-forms-agree C05,C12
/// a str and any AsRef<str> value hash alike: the hash is a function of the bytes
pub proof fn theorem_forms_agree<BH: BuildHasher, AR: AsRef<str>, AR2: AsRef<str>>(h: LeftRangeHasher<BH>, a: &AR, b: &AR2, s: &str)
    requires str_of(a).spec_bytes() == s.spec_bytes(), str_of(b).spec_bytes() == s.spec_bytes(),
    ensures Hasher::<AR>::hashv(&h, a) == Hasher::<str>::hashv(&h, s), Hasher::<AR>::hashv(&h, a) == Hasher::<AR2>::hashv(&h, b),
{ }
//@ endproof
}
//@ module hashers::inline_left_range_hasher
pub mod hashers_inline_left_range_hasher {
use vstd::prelude::*;
use core::hash::*;
use core::ops::Range;
use vstd::string::*;
use crate::query::Hasher;
use crate::hashing::*;
//@ type InlineLeftRangeHasher
//@ fn InlineLeftRangeHasher::new
//@ props C05,C12
    ensures res.bh == bh,
//@ endfn
impl<T: Hash, const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<[T]> for InlineLeftRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &[T]) -> u64 { left_hash(self.bh, t@, RANGE_START as int, RANGE_END as int) }
//@ fn InlineLeftRangeHasher@Hasher<[T]>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<str> for InlineLeftRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &str) -> u64 { left_hash(self.bh, t.spec_bytes(), RANGE_START as int, RANGE_END as int) }
//@ fn InlineLeftRangeHasher@Hasher<str>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<AR: AsRef<str>, const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<AR> for InlineLeftRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &AR) -> u64 { left_hash(self.bh, str_of(t).spec_bytes(), RANGE_START as int, RANGE_END as int) }
//@ fn InlineLeftRangeHasher@Hasher<AR>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite value.as_ref() =>> value.v_as_ref()
//@ endfn
}
//@ proof InlineLeftRangeHasher-forms-agree C05,C12
/// a str and any AsRef<str> value hash alike: the hash is a function of the bytes
pub proof fn theorem_forms_agree<const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher, AR: AsRef<str>, AR2: AsRef<str>>(h: InlineLeftRangeHasher<RANGE_START, RANGE_END, BH>, a: &AR, b: &AR2, s: &str)
    requires str_of(a).spec_bytes() == s.spec_bytes(), str_of(b).spec_bytes() == s.spec_bytes(),
    ensures Hasher::<AR>::hashv(&h, a) == Hasher::<str>::hashv(&h, s), Hasher::<AR>::hashv(&h, a) == Hasher::<AR2>::hashv(&h, b),
{ }
//@ endproof
}
//@ module hashers::right_range_hasher
pub mod hashers_right_range_hasher {
use vstd::prelude::*;
use core::hash::*;
use core::ops::Range;
use vstd::string::*;
use crate::query::Hasher;
use crate::hashing::*;
//@ type RightRangeHasher
//@ fn RightRangeHasher::new
//@ props C05,C12
    ensures res.bh == bh, res.range == range,
//@ endfn
//@ fn RightRangeHasher@Default::default
//@ mode free
//@ rename right_default
//@ props C05,C15
    ensures res.range.start <= res.range.end,
//@ endfn
impl<T: Hash, BH: BuildHasher> Hasher<[T]> for RightRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &[T]) -> u64 { right_hash(self.bh, t@, self.range.start as int, self.range.end as int) }
//@ fn RightRangeHasher@Hasher<[T]>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<BH: BuildHasher> Hasher<str> for RightRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &str) -> u64 { right_hash(self.bh, t.spec_bytes(), self.range.start as int, self.range.end as int) }
//@ fn RightRangeHasher@Hasher<str>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<AR: AsRef<str>, BH: BuildHasher> Hasher<AR> for RightRangeHasher<BH> {
    open spec fn hok(&self) -> bool { self.range.start <= self.range.end }
    open spec fn hashv(&self, t: &AR) -> u64 { right_hash(self.bh, str_of(t).spec_bytes(), self.range.start as int, self.range.end as int) }
//@ fn RightRangeHasher@Hasher<AR>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite value.as_ref() =>> value.v_as_ref()
//@ endfn
}
//@ proof RightRangeHasher-forms-agree C05,C12
/// a str and any AsRef<str> value hash alike: the hash is a function of the bytes
pub proof fn theorem_forms_agree<BH: BuildHasher, AR: AsRef<str>, AR2: AsRef<str>>(h: RightRangeHasher<BH>, a: &AR, b: &AR2, s: &str)
    requires str_of(a).spec_bytes() == s.spec_bytes(), str_of(b).spec_bytes() == s.spec_bytes(),
    ensures Hasher::<AR>::hashv(&h, a) == Hasher::<str>::hashv(&h, s), Hasher::<AR>::hashv(&h, a) == Hasher::<AR2>::hashv(&h, b),
{ }
//@ endproof
}
//@ module hashers::inline_right_range_hasher
pub mod hashers_inline_right_range_hasher {
use vstd::prelude::*;
use core::hash::*;
use core::ops::Range;
use vstd::string::*;
use crate::query::Hasher;
use crate::hashing::*;
//@ type InlineRightRangeHasher
//@ fn InlineRightRangeHasher::new
//@ props C05,C12
    ensures res.bh == bh,
//@ endfn
impl<T: Hash, const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<[T]> for InlineRightRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &[T]) -> u64 { right_hash(self.bh, t@, RANGE_START as int, RANGE_END as int) }
//@ fn InlineRightRangeHasher@Hasher<[T]>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<str> for InlineRightRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &str) -> u64 { right_hash(self.bh, t.spec_bytes(), RANGE_START as int, RANGE_END as int) }
//@ fn InlineRightRangeHasher@Hasher<str>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ endfn
}
impl<AR: AsRef<str>, const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher> Hasher<AR> for InlineRightRangeHasher<RANGE_START, RANGE_END, BH> {
    open spec fn hok(&self) -> bool { RANGE_START <= RANGE_END }
    open spec fn hashv(&self, t: &AR) -> u64 { right_hash(self.bh, str_of(t).spec_bytes(), RANGE_START as int, RANGE_END as int) }
//@ fn InlineRightRangeHasher@Hasher<AR>::hash_one
//@ mode bare
//@ props C05,C12
//@ rewrite self.bh.hash_one =>> self.bh.v_hash_slice
//@ rewrite value.as_ref() =>> value.v_as_ref()
//@ endfn
}
//@ proof InlineRightRangeHasher-forms-agree C05,C12
/// a str and any AsRef<str> value hash alike: the hash is a function of the bytes
pub proof fn theorem_forms_agree<const RANGE_START: usize, const RANGE_END: usize, BH: BuildHasher, AR: AsRef<str>, AR2: AsRef<str>>(h: InlineRightRangeHasher<RANGE_START, RANGE_END, BH>, a: &AR, b: &AR2, s: &str)
    requires str_of(a).spec_bytes() == s.spec_bytes(), str_of(b).spec_bytes() == s.spec_bytes(),
    ensures Hasher::<AR>::hashv(&h, a) == Hasher::<str>::hashv(&h, s), Hasher::<AR>::hashv(&h, a) == Hasher::<AR2>::hashv(&h, b),
{ }
//@ endproof
}
