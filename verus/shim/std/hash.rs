//! `std::hash`
use vstd::prelude::*;
use crate::spec::resp::Fed;
verus! {
pub struct BuildHasherDefault<T> { pub t: ::std::marker::PhantomData<T> }
impl<T> crate::shim::Default_ for BuildHasherDefault<T> {
    open spec fn is_default_(&self) -> bool { true }
    #[verifier::external_body]
    fn default_() -> Self { unimplemented!() }
}
/// What takes what is hashed.
pub trait Hasher {
    spec fn taken(&self) -> Seq<Fed>;
}
pub trait Hash {
    spec fn fed(&self) -> Seq<Fed>;
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures final(state).taken() == old(state).taken() + self.fed();
}
macro_rules! numbers { ($($t:ty),*) => { $(verus! {
    impl Hash for $t {
        open spec fn fed(&self) -> Seq<Fed> { seq![Fed::Num(*self as int)] }
        #[verifier::external_body]
        fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
    }
})* } }
numbers!(u8, u16, u32, u64, usize);
impl Hash for crate::shim::bytestring::ByteString {
    open spec fn fed(&self) -> Seq<Fed> { seq![Fed::Text(self@)] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl Hash for crate::shim::bytes::Bytes {
    open spec fn fed(&self) -> Seq<Fed> { seq![Fed::Bytes(self@)] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
impl Hash for super::mem::Discriminant {
    open spec fn fed(&self) -> Seq<Fed> { seq![Fed::Kind(self.n@)] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
/// What a vector of them feeds: how many, and each.
pub trait FedVec: Sized {
    spec fn fed_vec(s: Seq<Self>) -> Seq<Fed>;
}
impl<T: FedVec> Hash for Vec<T> {
    open spec fn fed(&self) -> Seq<Fed> { T::fed_vec(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
} // verus!
