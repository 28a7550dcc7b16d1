//! `std::rc`
use vstd::prelude::*;
verus! {
#[verifier::reject_recursive_types(T)]
pub struct Rc<T> { pub t: T }
impl<T> Rc<T> {
    pub fn new(t: T) -> (r: Rc<T>)
        ensures r.t == t
    { Rc { t } }
    /// Fails when it is shared.
    #[verifier::external_body]
    pub fn try_unwrap(x: Rc<T>) -> (r: Result<T, Rc<T>>)
        ensures r is Ok ==> r->Ok_0 == x.t
    { unimplemented!() }
}
impl<T> ::std::ops::Deref for Rc<T> {
    type Target = T;
    fn deref(&self) -> (r: &T)
        ensures *r == self.t
    { &self.t }
}
impl<T> crate::shim::dup::Dup_ for Rc<T> {
    #[verifier::external_body]
    fn dup_(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external]
impl<T> ::std::fmt::Debug for Rc<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { unimplemented!() } }
} // verus!
