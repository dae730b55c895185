//@ module traits::len
/// `Len` for the types that are hashed by their length.
pub mod traits_len {
use vstd::prelude::*;
use vstd::string::*;
use std::collections::*;
use crate::query::*;
use crate::hashing::*;
/// lengths of strings count bytes (assumed: std)
pub assume_specification [ String::len ] (s: &String) -> (r: usize) ensures r == str_of(s).spec_bytes().len();
/// a str has at most usize::MAX bytes (assumed: Rust)
#[verifier::external_body]
pub proof fn axiom_str_fits(s: &str) ensures s.spec_bytes().len() <= usize::MAX { }
impl Len for String {
    open spec fn lenv(&self) -> nat { str_of(self).spec_bytes().len() }
//@ fn String@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
impl Len for str {
    open spec fn lenv(&self) -> nat { self.spec_bytes().len() }
//@ fn str@Len::len
//@ mode bare
//@ props C05,C12
//@ ghost start
        proof { axiom_str_fits(self); }
//@ endfn
}
impl Len for &str {
    open spec fn lenv(&self) -> nat { self.spec_bytes().len() }
//@ fn &str@Len::len
//@ mode bare
//@ props C05,C12
//@ ghost start
        proof { axiom_str_fits(*self); }
//@ endfn
}
impl<T> Len for [T] {
    open spec fn lenv(&self) -> nat { self@.len() }
//@ fn [T]@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
impl<T: ?Sized + Len> Len for Box<T> {
    open spec fn lenv(&self) -> nat { (**self).lenv() }
//@ fn Box@Len::len
//@ mode bare
//@ ghost start
        proof { assert(<T as Len>::lenv(&**self) == (**self).lenv()); assert(self.lenv() == (**self).lenv()); }
//@ props C05,C12
//@ endfn
}
impl<T: ?Sized + Len> Len for std::rc::Rc<T> {
    open spec fn lenv(&self) -> nat { (**self).lenv() }
//@ fn Rc@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
impl<T: ?Sized + Len> Len for std::sync::Arc<T> {
    open spec fn lenv(&self) -> nat { (**self).lenv() }
//@ fn Arc@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
impl<T> Len for Vec<T> {
    open spec fn lenv(&self) -> nat { self@.len() }
//@ fn Vec@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
impl<T> Len for VecDeque<T> {
    open spec fn lenv(&self) -> nat { self@.len() }
//@ fn VecDeque@Len::len
//@ mode bare
//@ props C05,C12
//@ endfn
}
}
