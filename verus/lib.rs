//! What `lib.rs` of the crate gives.
use vstd::prelude::*;
verus! {
/// The version of the crate.
pub uninterp spec fn version() -> Seq<u8>;
#[verifier::external_body]
pub exec const VERSION: &'static str
    ensures crate::shim::text::str_bytes(VERSION@) == version()
{ "" }
pub uninterp spec fn help_text() -> Seq<u8>;
} // verus!
