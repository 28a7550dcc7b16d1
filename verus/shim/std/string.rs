use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct FromUtf8Error { s: () }
}
