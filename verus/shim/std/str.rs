//! `std::str`
use vstd::prelude::*;
use crate::shim::text::str_bytes;
verus! {
pub struct Utf8Error { pub x: () }
#[verifier::external_body]
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures r is Ok <==> crate::spec::resp::utf8(b@), r is Ok ==> str_bytes(r->Ok_0@) == b@
{ unimplemented!() }
} // verus!
