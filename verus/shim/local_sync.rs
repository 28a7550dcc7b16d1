//! `local_sync`: the channels between the two tasks of a connection.
pub mod mpsc {
    pub mod unbounded {
        use vstd::prelude::*;
        verus! {
        /// What is put in comes out on the other side, in order, none left out.
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Tx<T> { t: ::std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Rx<T> { t: ::std::marker::PhantomData<T> }
        pub struct SendError_ { pub x: () }
        #[verifier::external_body]
        pub fn channel<T>() -> (r: (Tx<T>, Rx<T>))
            ensures r.0.put() == Seq::<T>::empty(), r.0.id() == r.1.id()
        { unimplemented!() }
        impl<T> Tx<T> {
            pub uninterp spec fn id(&self) -> int;
            /// what was put in
            pub uninterp spec fn put(&self) -> Seq<T>;
            /// the other side is known to be gone
            pub uninterp spec fn alone(&self) -> bool;
            #[verifier::external_body]
            pub fn send(&mut self, x: T) -> (r: Result<(), SendError_>)
                ensures
                    final(self).id() == old(self).id(),
                    r is Ok ==> final(self).put() == old(self).put().push(x) && !old(self).alone() && !final(self).alone(),
                    r is Err ==> final(self).put() == old(self).put() && final(self).alone(),
            { unimplemented!() }
        }
        pub enum TryRecvError { Closed, Empty }
        impl<T> Rx<T> {
            /// What has come so far: there may be more to come.
            #[verifier::external_body]
            pub fn try_recv(&mut self) -> (r: Result<T, TryRecvError>)
                ensures
                    final(self).id() == old(self).id(),
                    r is Ok ==> old(self).ahead().len() > 0 && r->Ok_0 == old(self).ahead()[0]
                        && final(self).ahead() == old(self).ahead().drop_first(),
                    r is Err ==> final(self).ahead() == old(self).ahead(),
                    r matches Err(e) && e is Closed ==> old(self).ahead().len() == 0,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn close(&mut self)
                ensures final(self).id() == old(self).id()
            { unimplemented!() }
        }
        impl<T> Rx<T> {
            pub uninterp spec fn id(&self) -> int;
            /// what will come out until the end
            pub uninterp spec fn ahead(&self) -> Seq<T>;
            #[verifier::external_body]
            pub fn recv(&mut self) -> (r: Option<T>)
                ensures
                    final(self).id() == old(self).id(),
                    r is Some ==> old(self).ahead().len() > 0 && r->Some_0 == old(self).ahead()[0]
                        && final(self).ahead() == old(self).ahead().drop_first(),
                    r is None ==> old(self).ahead().len() == 0,
            { unimplemented!() }
        }
        } // verus!
    }
}
pub mod oneshot {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { t: ::std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { t: ::std::marker::PhantomData<T> }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>))
    { unimplemented!() }
    impl<T> Sender<T> {
        #[verifier::external_body]
        pub fn send(self, x: T) -> (r: Result<(), T>)
        { unimplemented!() }
    }
    pub struct RecvError { pub x: () }
    impl<T> crate::shim::task::Done_ for Receiver<T> {
        type O = Result<T, RecvError>;
        #[verifier::external_body]
        fn done_(self) -> Result<T, RecvError> { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<RecvError> for crate::shim::anyhow::Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: RecvError) -> crate::shim::anyhow::Error { crate::shim::anyhow::error_() }
    }
    impl From<RecvError> for crate::shim::anyhow::Error {
        #[verifier::external_body]
        fn from(e: RecvError) -> crate::shim::anyhow::Error { unimplemented!() }
    }
    } // verus!
}
