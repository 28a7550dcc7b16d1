//! `std::thread`
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { t: ::std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn spawn<T>(t: crate::shim::task::Task_<T>, w: &mut crate::shim::World) -> (r: JoinHandle<T>)
    ensures final(w).did(old(w), t.ev@)
{ unimplemented!() }
/// How many processors there are: from one to 65536.
#[verifier::external_body]
pub fn available_parallelism() -> (r: crate::shim::std::io::Result<Count_>)
    ensures r is Ok, 1 <= r->Ok_0.n <= 65536
{ unimplemented!() }
#[derive(Clone, Copy)]
pub struct Count_ { pub n: usize }
impl vstd::std_specs::convert::FromSpecImpl<Count_> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Count_) -> usize { v.n }
}
impl From<Count_> for usize {
    fn from(c: Count_) -> usize { c.n }
}
impl Count_ {
    pub fn get(self) -> (r: usize)
        ensures r == self.n
    { self.n }
}
} // verus!
