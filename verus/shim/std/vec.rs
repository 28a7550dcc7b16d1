//! `std::vec`
use vstd::prelude::*;
verus! {
pub struct IntoIter<T> { pub v: Ghost<Seq<T>>, pub x: ::std::vec::Vec<T> }
impl<T> View for IntoIter<T> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { self.v@ }
}
impl<T> IntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
}
impl<T> IntoIter<T> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: IntoIter<T>)
        ensures r@ == (if n < self@.len() { self@.take(n as int) } else { self@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: IntoIter<T>)
        ensures r@ == (if n < self@.len() { self@.skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None })
    { unimplemented!() }
}
/// `to_vec`, of bytes.
pub trait ToVec_ {
    spec fn listed_(&self) -> Seq<u8>;
    fn to_vec_(&self) -> (r: Vec<u8>)
        ensures r@ == self.listed_();
}
impl ToVec_ for [u8] {
    open spec fn listed_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl ToVec_ for crate::shim::bytes::Bytes {
    open spec fn listed_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl ToVec_ for Vec<u8> {
    open spec fn listed_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait IntoIter_ {
    type O;
    fn into_iter_(self) -> Self::O;
}
impl<T> IntoIter_ for Vec<T> {
    type O = IntoIter<T>;
    #[verifier::external_body]
    fn into_iter_(self) -> (r: IntoIter<T>)
        ensures r@ == self@
    { unimplemented!() }
}
impl<T> super::super::iter::Iter_ for IntoIter<T> {
    type It = IntoIter<T>;
    fn __iter(self) -> (r: IntoIter<T>)
        ensures r == self
    { self }
}
impl<T> super::super::iter::Iter_ for Vec<T> {
    type It = IntoIter<T>;
    #[verifier::external_body]
    fn __iter(self) -> (r: IntoIter<T>)
        ensures r@ == self@
    { unimplemented!() }
}
/// `retain`
pub trait Retain_ {
    type E;
    spec fn kept_(&self) -> Seq<Self::E>;
    fn retain_<F: Fn(&Self::E) -> bool>(&mut self, f: F)
        requires forall|x: &Self::E| f.requires((x,))
        ensures
            final(self).kept_().len() <= old(self).kept_().len(),
            (forall|j: int| 0 <= j < old(self).kept_().len() ==> f.ensures((&#[trigger] old(self).kept_()[j],), true)) ==> final(self).kept_() == old(self).kept_(),
            (forall|j: int| 0 <= j < old(self).kept_().len() ==> f.ensures((&#[trigger] old(self).kept_()[j],), false)) ==> final(self).kept_() == Seq::<Self::E>::empty();
}
impl<T> Retain_ for Vec<T> {
    type E = T;
    open spec fn kept_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn retain_<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
} // verus!
