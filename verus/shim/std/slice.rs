//! `std::slice`
use vstd::prelude::*;
use crate::shim::monoio::buf::BufPtr;
verus! {
/// Reads `n` bytes behind a pointer.
#[verifier::external_body]
pub fn from_raw_parts<'a>(p: BufPtr, n: usize) -> (r: &'a [u8])
    requires n <= p@.len()
    ensures r@ == p@.subrange(0, n as int)
{ unimplemented!() }
} // verus!
