//! `std::io`
use vstd::prelude::*;
use crate::shim::bytes::Buffer;
verus! {

pub struct Cursor<T> { pub inner: T, pub pos: u64 }

impl<T> Cursor<T> {
    pub fn new(inner: T) -> (r: Cursor<T>)
        ensures r.inner == inner, r.pos == 0
    { Cursor { inner, pos: 0 } }
    pub fn position(&self) -> (r: u64)
        ensures r == self.pos
    { self.pos }
    pub fn set_position(&mut self, p: u64)
        ensures final(self).inner == old(self).inner, final(self).pos == p
    { self.pos = p; }
    pub fn get_ref(&self) -> (r: &T)
        ensures *r == self.inner
    { &self.inner }
    pub fn into_inner(self) -> (r: T)
        ensures r == self.inner
    { self.inner }
}

/// `write!` into a vector, from the position of the cursor on.
pub open spec fn overlay(b: Seq<u8>, at: int, x: Seq<u8>) -> Seq<u8> {
    b.subrange(0, at) + x + (if at + x.len() <= b.len() { b.subrange(at + x.len(), b.len() as int) } else { Seq::empty() })
}
impl crate::shim::fmt::WriteTo for Cursor<Vec<u8>> {
    open spec fn after(&self, s: Seq<u8>, out: &Self) -> bool {
        out.inner@ == overlay(self.inner@, self.pos as int, s) && out.pos == self.pos + s.len()
    }
    #[verifier::external_body]
    fn write_fmt_(&mut self, f: crate::shim::fmt::Fmt) -> Result<()> { unimplemented!() }
}

pub trait Write {}

#[verifier::external_body]
#[derive(Debug)]
pub struct Error { s: () }
pub type Result<T> = ::std::result::Result<T, Error>;
#[derive(Clone, Copy)]
pub enum ErrorKind {
    Unsupported, InvalidData, InvalidInput, UnexpectedEof, Other, ConnectionReset, ConnectionAborted, ConnectionRefused, NotConnected,
    BrokenPipe, WouldBlock, TimedOut, Interrupted, WriteZero, NotFound, PermissionDenied, AddrInUse, AddrNotAvailable, AlreadyExists, OutOfMemory,
}
impl PartialEq for ErrorKind {
    #[verifier::external_body]
    fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
}
impl Error {
    pub uninterp spec fn kind_(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind)
        ensures r == self.kind_()
    { unimplemented!() }
}
pub uninterp spec fn error_() -> Error;
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ErrorKind) -> Error { error_() }
}
impl vstd::std_specs::convert::FromSpecImpl<Error> for crate::shim::anyhow::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Error) -> crate::shim::anyhow::Error { crate::shim::anyhow::error_() }
}
impl From<Error> for crate::shim::anyhow::Error {
    #[verifier::external_body]
    fn from(e: Error) -> crate::shim::anyhow::Error { unimplemented!() }
}
impl From<ErrorKind> for Error {
    #[verifier::external_body]
    fn from(e: ErrorKind) -> Error { unimplemented!() }
}

/// `bytes::Buf for Cursor<T>`
impl<T: Buffer> Cursor<T> {
    pub open spec fn left(&self) -> int {
        if self.pos as int <= self.inner.data().len() { self.inner.data().len() - self.pos } else { 0 }
    }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize)
        ensures r == self.left()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_remaining(&self) -> (r: bool)
        ensures r == (self.left() > 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk(&self) -> (r: &[u8])
        ensures r@.len() == self.left(),
            r@ == (if self.left() > 0 { self.inner.data().subrange(self.pos as int, self.inner.data().len() as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u8(&mut self) -> (r: u8)
        requires old(self).left() > 0
        ensures final(self).inner == old(self).inner, final(self).pos == old(self).pos + 1,
            r == old(self).inner.data()[old(self).pos as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self).left()
        ensures final(self).inner == old(self).inner, final(self).pos == old(self).pos + n,
    { unimplemented!() }
}

} // verus!
