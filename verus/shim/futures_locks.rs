//! `futures_locks`
use vstd::prelude::*;
use crate::shim::World;
use crate::spec::world::*;
use super::bytestring::ByteString;
verus! {
/// A value with a reader-writer lock: the name of a connection.
pub struct RwLock<T> { pub id: Ghost<int>, pub start: Ghost<Option<Seq<u8>>>, pub t: ::std::marker::PhantomData<T> }
/// What is in it, while it is locked.
pub struct RwLockReadGuard<T> { pub v: T }
pub struct RwLockWriteGuard<T> { pub lock: Ghost<int>, pub v: T }
pub open spec fn text_of(n: Option<ByteString>) -> Option<Seq<u8>> { match n { Some(x) => Some(x@), None => None } }

impl RwLock<Option<ByteString>> {
    #[verifier::external_body]
    pub fn new(x: Option<ByteString>) -> (r: Self)
        ensures r.start@ == text_of(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, w: &mut World) -> (r: RwLockReadGuard<Option<ByteString>>)
        ensures final(w).did(old(w), Ev::Name { lock: self.id@, name: text_of(r.v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self, w: &mut World) -> (r: RwLockWriteGuard<Option<ByteString>>)
        ensures *final(w) == *old(w), r.lock == self.id
    { unimplemented!() }
}
impl RwLock<Option<ByteString>> {
    #[verifier::external_body]
    pub fn try_read(&self, w: &mut World) -> (r: Result<RwLockReadGuard<Option<ByteString>>, ()>)
        ensures
            r is Ok ==> final(w).did(old(w), Ev::Name { lock: self.id@, name: text_of(r->Ok_0.v) }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_write(&self, w: &mut World) -> (r: Result<RwLockWriteGuard<Option<ByteString>>, ()>)
        ensures *final(w) == *old(w), r is Ok ==> r->Ok_0.lock == self.id
    { unimplemented!() }
}
impl<T> ::std::ops::Deref for RwLockReadGuard<T> {
    type Target = T;
    fn deref(&self) -> (r: &T)
        ensures *r == self.v
    { &self.v }
}
impl RwLockWriteGuard<Option<ByteString>> {
    /// `*guard = x`
    #[verifier::external_body]
    pub fn store_(&mut self, x: Option<ByteString>, w: &mut World)
        ensures
            final(self).lock == old(self).lock,
            final(w).did(old(w), Ev::SetName { lock: old(self).lock@, name: text_of(x) })
    { unimplemented!() }
}
} // verus!
