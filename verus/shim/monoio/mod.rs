//! `monoio`
pub mod buf;
pub mod io;
pub mod net;
use vstd::prelude::*;
pub mod time {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn sleep(d: crate::shim::std::time::Duration) { unimplemented!() }
    }
}
pub mod utils {
    use vstd::prelude::*;
    verus! {
    /// (the server starts: the processor exists)
    #[verifier::external_body]
    pub fn bind_to_cpu_set(set: Option<usize>) -> (r: crate::shim::std::io::Result<()>)
        ensures r is Ok
    { unimplemented!() }
    }
}
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct RuntimeBuilder<D> { d: ::std::marker::PhantomData<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Runtime<D> { d: ::std::marker::PhantomData<D> }
impl<D> RuntimeBuilder<D> {
    #[verifier::external_body]
    pub fn new() -> RuntimeBuilder<D> { unimplemented!() }
    #[verifier::external_body]
    pub fn with_entries(self, n: u32) -> RuntimeBuilder<D> { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_timer(self) -> RuntimeBuilder<D> { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_all(self) -> RuntimeBuilder<D> { unimplemented!() }
    /// (the server starts: the runtime can be built)
    #[verifier::external_body]
    pub fn build(self) -> (r: crate::shim::std::io::Result<Runtime<D>>)
        ensures r is Ok
    { unimplemented!() }
}
impl<D> Runtime<D> {
    /// Runs a block. (The server starts: the one that listens does not end.)
    #[verifier::external_body]
    pub fn block_on<T>(&mut self, t: crate::shim::task::Task_<::std::result::Result<T, crate::shim::anyhow::Error>>, w: &mut crate::shim::World) -> (r: ::std::result::Result<T, crate::shim::anyhow::Error>)
        ensures final(w).did(old(w), t.ev@), t.ev@ is Starts ==> r is Ok
    { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn<T>(t: crate::shim::task::Task_<T>, w: &mut crate::shim::World) -> (r: JoinHandle<T>)
    ensures final(w).did(old(w), t.ev@)
{ unimplemented!() }
pub use crate::shim::task::JoinHandle;
pub type BufResult<T, B> = (::std::result::Result<T, crate::shim::std::io::Error>, B);
}
