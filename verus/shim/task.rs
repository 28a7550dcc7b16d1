//! Tasks.
use vstd::prelude::*;
verus! {
use crate::spec::world::*;
use crate::shim::World;
/// A block that is verified on its own, and the step that spawning it is.
#[verifier::reject_recursive_types(T)]
pub struct Task_<T> { pub ev: Ghost<Ev>, pub t: ::std::marker::PhantomData<T> }
impl<T> Done_ for Task_<T> {
    type O = T;
    #[verifier::external_body]
    fn done_(self) -> T { unimplemented!() }
}
/// What has been spawned. (A task that panics ends the server.)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { t: ::std::marker::PhantomData<T> }
pub trait Done_: Sized {
    type O;
    fn done_(self) -> Self::O;
}
impl<T> Done_ for JoinHandle<T> {
    type O = T;
    #[verifier::external_body]
    fn done_(self) -> T { unimplemented!() }
}
/// `x.await`
pub fn done_<D: Done_>(d: D) -> D::O { d.done_() }
/// Which branch of `select!` is taken.
#[verifier::external_body]
pub fn which_(n: usize) -> (r: usize)
    requires n > 0
    ensures r < n
{ unimplemented!() }
/// A captured variable, moved out.
#[verifier::external_body]
pub fn taken_<T>(x: &mut T) -> (r: T)
    ensures r == *old(x)
{ unimplemented!() }
} // verus!
