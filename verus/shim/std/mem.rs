//! `std::mem`
use vstd::prelude::*;
pub use ::std::mem::{swap, replace, drop, size_of};
verus! {
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [::std::mem::replace::<T>] (d: &mut T, s: T) -> (r: T)
    where T: ::std::marker::Destruct
    ensures r == *old(d), *final(d) == s;
pub fn take<T: crate::shim::Default_>(x: &mut T) -> (r: T)
    ensures r == *old(x), final(x).is_default_()
{
    ::std::mem::replace(x, T::default_())
}
/// Which variant of an enumeration.
pub trait Kinds { spec fn kind_(&self) -> int; }
pub struct Discriminant { pub n: Ghost<int> }
#[verifier::external_body]
pub fn discriminant<T: Kinds>(x: &T) -> (r: Discriminant)
    ensures r.n@ == x.kind_()
{ unimplemented!() }
} // verus!
