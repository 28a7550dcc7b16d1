//! `sharded_thread`
pub mod shard {
    use vstd::prelude::*;
    verus! {
    pub struct Shard<T> { pub of: Ghost<int>, pub t: ::std::marker::PhantomData<T> }
    impl<T> Shard<T> {
        #[verifier::external_body]
        pub fn send_to(&self, x: T, shard: usize) -> (r: crate::shim::std::io::Result<()>) { unimplemented!() }
    }
    }
}
pub mod mesh {
    use vstd::prelude::*;
    verus! {
    pub struct MeshBuilder<T> { pub peers: Ghost<int>, pub t: ::std::marker::PhantomData<T> }
    impl<T> MeshBuilder<T> {
        /// Fails when the server can't start.
        #[verifier::external_body]
        pub fn new(n: usize) -> (r: crate::shim::std::io::Result<MeshBuilder<T>>)
            ensures r is Ok, r->Ok_0.peers@ == n
        { unimplemented!() }
        /// Panics for a peer there is not.
        #[verifier::external_body]
        pub fn join_with(&self, peer: usize) -> (r: crate::shim::std::io::Result<super::shard::Shard<T>>)
            requires peer < self.peers@
            ensures r is Ok, r->Ok_0.of@ == peer
        { unimplemented!() }
    }
    }
}
