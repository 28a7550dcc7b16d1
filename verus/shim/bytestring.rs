//! `bytestring`
use vstd::prelude::*;
use super::bytes::*;
use super::text::*;
use crate::spec::resp::utf8;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct ByteString { b: ::std::vec::Vec<u8> }
impl View for ByteString {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl StrLike for ByteString {
    open spec fn bytes_(&self) -> Seq<u8> { self@ }
}
impl Shown for ByteString {
    open spec fn shown(&self) -> Seq<u8> { self@ }
}
impl Clone for ByteString {
    #[verifier::external_body]
    fn clone(&self) -> (r: ByteString)
        ensures r@ == self@
    { unimplemented!() }
}
impl crate::shim::Default_ for ByteString {
    open spec fn is_default_(&self) -> bool { self@ == Seq::<u8>::empty() }
    fn default_() -> ByteString { ByteString::new() }
}
pub struct Utf8Error_ { pub x: () }
impl From<super::text::String> for ByteString {
    #[verifier::external_body]
    fn from(s: super::text::String) -> (r: ByteString)
        ensures r@ == s@
    { unimplemented!() }
}
pub uninterp spec fn of_str(s: &str) -> ByteString;
#[verifier::external_body]
pub broadcast proof fn axiom_of_str(s: &str)
    ensures (#[trigger] of_str(s))@ == str_bytes(s@)
{ }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for ByteString {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> ByteString { of_str(s) }
}
impl<'a> From<&'a str> for ByteString {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: ByteString)
        ensures r@ == str_bytes(s@)
    { unimplemented!() }
}
impl ByteString {
    #[verifier::external_body]
    pub const fn new() -> (r: ByteString)
        ensures r@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_static(s: &'static str) -> (r: ByteString)
        ensures r@ == str_bytes(s@)
    { unimplemented!() }
    /// `ByteString::try_from(Bytes)`
    #[verifier::external_body]
    pub fn try_from(b: Bytes) -> (r: Result<ByteString, Utf8Error_>)
        ensures r is Ok <==> utf8(b@), r is Ok ==> r->Ok_0@ == b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Bytes)
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r < max_buffer()
    { unimplemented!() }
    pub fn as_str(&self) -> (r: &ByteString)
        ensures r == self
    { self }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
}
impl ByteString {
    #[verifier::external_body]
    pub unsafe fn from_bytes_unchecked(b: Bytes) -> (r: ByteString)
        requires utf8(b@)
        ensures r@ == b@
    { unimplemented!() }
}
} // verus!
