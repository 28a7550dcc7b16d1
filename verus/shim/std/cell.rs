//! `std::cell`
use vstd::prelude::*;
use crate::shim::World;
verus! {
/// A cell, of one thread.
pub struct Cell<T> { pub id: Ghost<int>, pub t: ::std::marker::PhantomData<T> }
impl Cell<bool> {
    #[verifier::external_body]
    pub fn new(x: bool, w: &mut World) -> (r: Cell<bool>)
        ensures
            final(w).log == old(w).log, final(w).incoming == old(w).incoming, !old(w).cells@.dom().contains(r.id@),
            final(w).cells@ == old(w).cells@.insert(r.id@, x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, w: &mut World) -> (r: bool)
        requires old(w).cells@.dom().contains(self.id@)
        ensures *final(w) == *old(w), r == old(w).cells@[self.id@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, x: bool, w: &mut World)
        ensures final(w).log == old(w).log, final(w).incoming == old(w).incoming, final(w).cells@ == old(w).cells@.insert(self.id@, x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, x: bool, w: &mut World) -> (r: bool)
        requires old(w).cells@.dom().contains(self.id@)
        ensures final(w).log == old(w).log, final(w).incoming == old(w).incoming, final(w).cells@ == old(w).cells@.insert(self.id@, x), r == old(w).cells@[self.id@]
    { unimplemented!() }
    /// `clone`: another cell, with the same in it.
    #[verifier::external_body]
    pub fn dup_w(&self, w: &mut World) -> (r: Cell<bool>)
        requires old(w).cells@.dom().contains(self.id@)
        ensures
            final(w).log == old(w).log, final(w).incoming == old(w).incoming, !old(w).cells@.dom().contains(r.id@),
            final(w).cells@ == old(w).cells@.insert(r.id@, old(w).cells@[self.id@]),
    { unimplemented!() }
}
/// A value that is borrowed when it is used.
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { pub t: T }
impl<T> RefCell<T> {
    pub fn new(t: T) -> (r: RefCell<T>)
        ensures r.t == t
    { RefCell { t } }
    pub fn into_inner(self) -> (r: T)
        ensures r == self.t
    { self.t }
}
#[verifier::external]
impl<T> ::std::fmt::Debug for RefCell<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { unimplemented!() } }
} // verus!
