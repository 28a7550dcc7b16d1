//! `atoi_simd`
use vstd::prelude::*;
use crate::spec::resp::atoi;
verus! {
pub struct AtoiSimdError { pub x: () }
pub trait Atoi: Sized {
    spec fn atoi_(s: Seq<u8>) -> Option<Self>;
}
impl Atoi for u64 { open spec fn atoi_(s: Seq<u8>) -> Option<u64> { atoi(s) } }
pub uninterp spec fn atoi_other<T>(s: Seq<u8>) -> Option<T>;
impl Atoi for u32 { open spec fn atoi_(s: Seq<u8>) -> Option<u32> { atoi_other(s) } }
impl Atoi for i64 { open spec fn atoi_(s: Seq<u8>) -> Option<i64> { atoi_other(s) } }
impl Atoi for usize { open spec fn atoi_(s: Seq<u8>) -> Option<usize> { atoi_other(s) } }
#[verifier::external_body]
pub fn parse<T: Atoi>(s: &[u8]) -> (r: Result<T, AtoiSimdError>)
    ensures r is Ok <==> T::atoi_(s@) is Some, r is Ok ==> r->Ok_0 == T::atoi_(s@)->Some_0
{ unimplemented!() }
} // verus!
