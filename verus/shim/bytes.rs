//! `bytes`
use vstd::prelude::*;
pub use self::buf_names::*;
pub mod buf_names { 
    use vstd::prelude::*;
    verus! {
    /// The trait `Buf` is only imported to bring its methods in scope.
    pub trait Buf {}
    pub trait BufMut {}
    }
}
use super::iter::Bounds_;
verus! {

/// Something with bytes in it.
pub trait Buffer {
    spec fn data(&self) -> Seq<u8>;
}
impl<'a, T: Buffer> Buffer for &'a T {
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
}

/// Memory is finite: no buffer of this platform is larger.
pub open spec fn max_buffer() -> int { 0x8000_0000_0000 }

#[verifier::external_body]
#[derive(Debug)]
pub struct Bytes { b: ::std::vec::Vec<u8> }
impl View for Bytes {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl Buffer for Bytes {
    open spec fn data(&self) -> Seq<u8> { self@ }
}
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_len(b: Bytes)
    ensures (#[trigger] b@).len() < max_buffer()
{ }

impl ::std::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8])
        ensures r@ == self@
    { unimplemented!() }
}

/// Bytes, as an array or a slice.
pub trait Raw_ { spec fn raw_(&self) -> Seq<u8>; }
impl Raw_ for [u8] { open spec fn raw_(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Raw_ for [u8; N] { open spec fn raw_(&self) -> Seq<u8> { self@ } }
impl Bytes {
    #[verifier::external_body]
    pub fn from_static<T: Raw_ + ?Sized>(b: &'static T) -> (r: Bytes)
        ensures r@ == b.raw_()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice<R: Bounds_>(&self, r: R) -> (o: Bytes)
        requires r.lo() <= r.hi(self@.len() as int), r.hi(self@.len() as int) <= self@.len()
        ensures o@ == self@.subrange(r.lo(), r.hi(self@.len() as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r < max_buffer()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
}
impl From<Vec<u8>> for Bytes {
    #[verifier::external_body]
    fn from(v: Vec<u8>) -> (r: Bytes)
        ensures r@ == v@
    { unimplemented!() }
}
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes)
        ensures r@ == self@
    { unimplemented!() }
}

impl PartialEq for Bytes {
    #[verifier::external_body]
    fn eq(&self, o: &Bytes) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Bytes) -> bool { self@ == o@ }
}
impl<'a> PartialEq<&'a [u8]> for Bytes {
    #[verifier::external_body]
    fn eq(&self, o: &&'a [u8]) -> (r: bool) { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a [u8]> for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a [u8]) -> bool { self@ =~= (*o)@ }
}

#[verifier::external_body]
#[derive(Debug)]
pub struct BytesMut { b: ::std::vec::Vec<u8> }
impl View for BytesMut {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl BytesMut {
    /// How much it can hold without growing.
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut)
        requires n < 0x80_0000_0000_0000
        ensures r@ == Seq::<u8>::empty(), r.room() >= n
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r == self.room(), self@.len() <= r
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        requires n < 0x80_0000_0000_0000
        ensures final(self)@ == old(self)@, final(self).room() >= old(self)@.len() + n
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, at: usize) -> (r: BytesMut)
        requires at <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, at as int),
            final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, at: usize) -> (r: BytesMut)
        requires at <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, at as int),
            r@ == old(self)@.subrange(at as int, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut)
        ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, x: &[u8])
        ensures final(self)@ == old(self)@ + x@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes)
        ensures r@ == self@
    { unimplemented!() }
}
impl Buffer for BytesMut {
    open spec fn data(&self) -> Seq<u8> { self@ }
}
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_mut_len(b: BytesMut)
    ensures (#[trigger] b@).len() < max_buffer()
{ }
impl ::std::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8])
        ensures r@ == self@
    { unimplemented!() }
}
impl BytesMut {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8])
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r < max_buffer()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
}
impl crate::shim::Default_ for Bytes {
    open spec fn is_default_(&self) -> bool { self@ == Seq::<u8>::empty() }
    #[verifier::external_body]
    fn default_() -> Bytes { unimplemented!() }
}
impl crate::shim::Default_ for BytesMut {
    open spec fn is_default_(&self) -> bool { self@ == Seq::<u8>::empty() }
    fn default_() -> BytesMut { BytesMut::new() }
}
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes)
        ensures r@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(b: &[u8]) -> (r: Bytes)
        ensures r@ == b@
    { unimplemented!() }
}
} // verus!
