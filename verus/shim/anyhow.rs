//! `anyhow`
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { s: () }
pub type Result<T> = ::std::result::Result<T, Error>;
/// What an error says is not looked at: there is a single one.
pub uninterp spec fn error_() -> Error;
impl Error {
    #[verifier::external_body]
    pub fn any_() -> (r: Error)
        ensures r == error_()
    { unimplemented!() }
}
} // verus!
