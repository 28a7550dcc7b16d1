//! `monoio::buf`
use vstd::prelude::*;
use crate::shim::bytes::*;
use crate::shim::iter::Bounds_;
verus! {
/// A pointer to the initialised bytes of a buffer.
#[verifier::external_body]
pub struct BufPtr { p: () }
impl View for BufPtr {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}

/// A buffer that can be given to a writer.
pub trait IoBuf: Sized {
    spec fn iob(&self) -> Seq<u8>;
    fn bytes_init(&self) -> (r: usize)
        ensures r == self.iob().len();
    fn read_ptr(&self) -> (r: BufPtr)
        ensures r@ == self.iob();
}
/// `IoBuf::slice`
pub trait IoBufSlice: IoBuf {
    fn slice<R: Bounds_>(self, r: R) -> (o: Slice<Self>)
        requires r.lo() <= r.hi(self.iob().len() as int), r.hi(self.iob().len() as int) <= self.iob().len()
        ensures o.start == r.lo(), o.stop == r.hi(self.iob().len() as int), o.inner == self;
}
impl<T: IoBuf> IoBufSlice for T {
    #[verifier::external_body] fn slice<R: Bounds_>(self, r: R) -> Slice<Self> { unimplemented!() }
}
pub struct Slice<T> { pub inner: T, pub start: usize, pub stop: usize }
impl<T> Slice<T> {
    pub fn into_inner(self) -> (r: T)
        ensures r == self.inner
    { self.inner }
}
impl<T: IoBuf> IoBuf for Slice<T> {
    open spec fn iob(&self) -> Seq<u8> { self.inner.iob().subrange(self.start as int, self.stop as int) }
    #[verifier::external_body] fn bytes_init(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn read_ptr(&self) -> BufPtr { unimplemented!() }
}
impl IoBuf for Vec<u8> {
    open spec fn iob(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn bytes_init(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn read_ptr(&self) -> BufPtr { unimplemented!() }
}
impl IoBuf for Bytes {
    open spec fn iob(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn bytes_init(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn read_ptr(&self) -> BufPtr { unimplemented!() }
}
impl<'a> IoBuf for &'a [u8] {
    open spec fn iob(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn bytes_init(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn read_ptr(&self) -> BufPtr { unimplemented!() }
}
impl<'a, const N: usize> IoBuf for &'a [u8; N] {
    open spec fn iob(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn bytes_init(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn read_ptr(&self) -> BufPtr { unimplemented!() }
}
pub trait IoVecBuf: Sized {}

/// A part of a buffer that is to be read into.
pub struct SliceMut<T> { pub inner: T, pub start: usize }
impl<T> SliceMut<T> {
    pub fn into_inner(self) -> (r: T)
        ensures r == self.inner
    { self.inner }
}
/// A buffer that can be given to a reader.
pub trait IoBufMut: Sized {
    /// initialised bytes, and how much it can hold
    spec fn init_(&self) -> Seq<u8>;
    spec fn total_(&self) -> nat;
    fn slice_mut(self, r: ::std::ops::RangeFrom<usize>) -> (o: SliceMut<Self>)
        requires r.start <= self.init_().len()
        ensures o.inner == self, o.start == r.start;
}
impl IoBufMut for BytesMut {
    open spec fn init_(&self) -> Seq<u8> { self@ }
    open spec fn total_(&self) -> nat { self.room() }
    fn slice_mut(self, r: ::std::ops::RangeFrom<usize>) -> (o: SliceMut<Self>)
    { SliceMut { inner: self, start: r.start } }
}
} // verus!
