//! `monoio::io`
use vstd::prelude::*;
use super::buf::*;
use super::net::TcpStream;
use super::BufResult;
use crate::shim::std::io;
verus! {

/// After `old`, some of the first bytes of `x`, or none, or all.
pub open spec fn part(old: Seq<u8>, x: Seq<u8>, new: Seq<u8>) -> bool { old.is_prefix_of(new) && new.is_prefix_of(old + x) }

/// Something bytes can be written to.
pub trait AsyncWriteRent {
    /// every byte accepted so far, in order
    spec fn sent(&self) -> Seq<u8>;
    /// how many of them are still kept back
    spec fn held(&self) -> nat;
    /// `n` more bytes can be given: a `BufWriter` of monoio copies them without
    /// looking whether its buffer is large enough
    spec fn room(&self, n: nat) -> bool;
    /// it takes every buffer as a whole, and never fails
    spec fn whole(&self) -> bool;

    /// Takes the first bytes of a buffer.
    fn write<T: IoBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
        requires old(self).whole() || old(self).room(buf.iob().len())
        ensures
            final(self).whole() == old(self).whole(),
            r.0 is Ok ==> r.0->Ok_0 <= buf.iob().len()
                && final(self).sent() == old(self).sent() + buf.iob().subrange(0, r.0->Ok_0 as int),
            r.0 is Err ==> final(self).sent() == old(self).sent(),
            old(self).whole() ==> r.0 is Ok && r.0->Ok_0 == buf.iob().len();
    fn writev<T: IoVecBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
        ensures final(self).whole() == old(self).whole();
    /// Hands over what is kept back.
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures
            final(self).whole() == old(self).whole(),
            final(self).sent() == old(self).sent(),
            r is Ok ==> final(self).held() == 0;
    fn shutdown(&mut self) -> (r: io::Result<()>)
        ensures final(self).whole() == old(self).whole();
}

/// Writes a buffer as a whole, with as many writes as it takes.
pub trait AsyncWriteRentExt: AsyncWriteRent {
    fn write_all<T: IoBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
        requires old(self).whole() || old(self).room(buf.iob().len())
        ensures
            final(self).whole() == old(self).whole(),
            r.0 is Ok ==> final(self).sent() == old(self).sent() + buf.iob() && r.0->Ok_0 == buf.iob().len(),
            r.0 is Err ==> part(old(self).sent(), buf.iob(), final(self).sent());
}
impl<A: AsyncWriteRent> AsyncWriteRentExt for A {
    #[verifier::external_body]
    fn write_all<T: IoBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
    { unimplemented!() }
}

/// Something bytes can be read from.
pub trait AsyncReadRent {
    /// the bytes that will be received until the end of the stream
    spec fn incoming(&self) -> Seq<u8>;
    /// the stream ends with an error, instead of being closed by the other side
    spec fn faulty(&self) -> bool;
    fn read<T: IoBufMut>(&mut self, buf: SliceMut<T>) -> (r: BufResult<usize, SliceMut<T>>)
        requires
            // no room would look like the end of the stream
            buf.start < buf.inner.total_(),
        ensures
            final(self).faulty() == old(self).faulty(),
            r.1.start == buf.start,
            r.0 is Ok ==> r.0->Ok_0 <= old(self).incoming().len()
                && (r.0->Ok_0 == 0 <==> old(self).incoming().len() == 0)
                && final(self).incoming() == old(self).incoming().subrange(r.0->Ok_0 as int, old(self).incoming().len() as int)
                && r.1.inner.init_() == io::overlay(buf.inner.init_(), buf.start as int, old(self).incoming().subrange(0, r.0->Ok_0 as int)),
            r.0 is Ok && r.0->Ok_0 == 0 ==> !old(self).faulty(),
            r.0 is Err ==> old(self).faulty() && old(self).incoming().len() == 0;
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedReadHalf<T> { t: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedWriteHalf<T> { t: T }

impl OwnedReadHalf<TcpStream> {
    pub uninterp spec fn conn(&self) -> int;
    pub uninterp spec fn inbound(&self) -> Seq<u8>;
    pub uninterp spec fn faulty(&self) -> bool;
}
#[derive(Debug)]
pub struct ReuniteError_ { pub x: () }
impl OwnedWriteHalf<TcpStream> {
    pub uninterp spec fn conn(&self) -> int;
    /// Fails when the halves are not those of one stream.
    #[verifier::external_body]
    pub fn reunite(self, o: OwnedReadHalf<TcpStream>) -> (r: Result<TcpStream, ReuniteError_>)
        ensures r is Ok <==> self.conn() == o.conn(), r is Ok ==> r->Ok_0.conn() == self.conn()
    { unimplemented!() }
}
/// A half of a connection.
pub trait HalfOf_ {
    spec fn half_conn(&self) -> int;
    spec fn half_inbound(&self) -> Seq<u8>;
    spec fn half_faulty(&self) -> bool;
}
impl HalfOf_ for OwnedReadHalf<TcpStream> {
    open spec fn half_conn(&self) -> int { self.conn() }
    open spec fn half_inbound(&self) -> Seq<u8> { self.inbound() }
    open spec fn half_faulty(&self) -> bool { self.faulty() }
}
impl HalfOf_ for OwnedWriteHalf<TcpStream> {
    open spec fn half_conn(&self) -> int { self.conn() }
    open spec fn half_inbound(&self) -> Seq<u8> { Seq::empty() }
    open spec fn half_faulty(&self) -> bool { false }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: HalfOf_> BufReader<R> {
    pub uninterp spec fn conn(&self) -> int;
    #[verifier::external_body]
    pub fn new(r: R) -> (o: BufReader<R>)
        ensures o.conn() == r.half_conn(), reader_incoming(o) == r.half_inbound(), reader_faulty(o) == r.half_faulty()
    { unimplemented!() }
    /// The bytes it holds back are lost.
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R)
        ensures r.half_conn() == self.conn()
    { unimplemented!() }
}
pub uninterp spec fn reader_incoming<R>(r: BufReader<R>) -> Seq<u8>;
pub uninterp spec fn reader_faulty<R>(r: BufReader<R>) -> bool;
impl<R> AsyncReadRent for BufReader<R> {
    open spec fn incoming(&self) -> Seq<u8> { reader_incoming(*self) }
    open spec fn faulty(&self) -> bool { reader_faulty(*self) }
    #[verifier::external_body]
    fn read<T: IoBufMut>(&mut self, buf: SliceMut<T>) -> (r: BufResult<usize, SliceMut<T>>)
    { unimplemented!() }
}

/// The buffer of a `BufWriter`.
pub open spec fn writer_buffer() -> nat { 8192 }

#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<W> { w: W }
impl<W: HalfOf_> BufWriter<W> {
    pub uninterp spec fn conn(&self) -> int;
    #[verifier::external_body]
    pub fn new(w: W) -> (o: BufWriter<W>)
        ensures o.conn() == w.half_conn(), o.held() == 0, o.sent() == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: W)
        ensures r.half_conn() == self.conn()
    { unimplemented!() }
}
pub uninterp spec fn writer_sent<W>(w: BufWriter<W>) -> Seq<u8>;
pub uninterp spec fn writer_held<W>(w: BufWriter<W>) -> nat;
impl<W> AsyncWriteRent for BufWriter<W> {
    open spec fn sent(&self) -> Seq<u8> { writer_sent(*self) }
    open spec fn held(&self) -> nat { writer_held(*self) }
    open spec fn room(&self, n: nat) -> bool { n > writer_buffer() || self.held() + n <= writer_buffer() }
    open spec fn whole(&self) -> bool { false }
    #[verifier::external_body]
    fn write<T: IoBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
    { unimplemented!() }
    #[verifier::external_body]
    fn writev<T: IoVecBuf>(&mut self, buf: T) -> (r: BufResult<usize, T>)
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>)
    { unimplemented!() }
    #[verifier::external_body]
    fn shutdown(&mut self) -> (r: io::Result<()>)
    { unimplemented!() }
}
pub trait Splitable {}
} // verus!
