//! Iteration: what `for` and the iterator adaptors go through.
use vstd::prelude::*;
verus! {

/// `x.into_iter()`, for what the code iterates over.
pub trait Iter_: Sized {
    type It;
    fn __iter(self) -> Self::It;
}

/// Iterates over a slice.
pub struct SliceIter<'a, T> { pub s: &'a [T], pub i: usize }
/// What is left.
impl<'a, T> View for SliceIter<'a, T> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { if self.i < self.s@.len() { self.s@.skip(self.i as int) } else { Seq::empty() } }
}
impl<'a, T> SliceIter<'a, T> {
    pub open spec fn seq(&self) -> Seq<T> { self.s@ }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r is Some && *r->0 == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
            old(self)@.len() > 0 ==> r is Some && *r->0 == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            old(self)@.len() == 0 <==> r is None,
            r is None ==> final(self)@.len() == 0,
    { unimplemented!() }
}
impl<'a, T> SliceIter<'a, T> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SliceIter<'a, T>)
        ensures r.i == self.i, r.s@ == (if n < self.s@.len() - self.i { self.s@.take(self.i + n) } else { self.s@ }), r@ == (if n < self@.len() { self@.take(n as int) } else { self@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SliceIter<'a, T>)
        ensures r.s == self.s, r.i == (if self.i + n < self.s@.len() { self.i + n } else { self.s@.len() as int }), r@ == (if n < self@.len() { self@.skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
}
impl<'a, T> Iter_ for &'a [T] {
    type It = SliceIter<'a, T>;
    fn __iter(self) -> (r: SliceIter<'a, T>)
        ensures r.s@ == self@, r.i == 0, r@ == self@
    { SliceIter { s: self, i: 0 } }
}
impl<'a, T> Iter_ for &'a Vec<T> {
    type It = SliceIter<'a, T>;
    fn __iter(self) -> (r: SliceIter<'a, T>)
        ensures r.s@ == self@, r.i == 0, r@ == self@
    { SliceIter { s: self.as_slice(), i: 0 } }
}

impl<'a, T> Iter_ for SliceIter<'a, T> {
    type It = SliceIter<'a, T>;
    fn __iter(self) -> (r: SliceIter<'a, T>)
        ensures r == self
    { self }
}
/// `x.iter()`
pub trait IterRef_ {
    type T;
    spec fn listed_(&self) -> Seq<Self::T>;
    fn iter_<'a>(&'a self) -> (r: SliceIter<'a, Self::T>)
        ensures r.s@ == self.listed_(), r.i == 0, r@ == self.listed_();
}
impl<T> IterRef_ for [T] {
    type T = T;
    open spec fn listed_(&self) -> Seq<T> { self@ }
    fn iter_<'a>(&'a self) -> SliceIter<'a, T> { SliceIter { s: self, i: 0 } }
}
impl<T> IterRef_ for Vec<T> {
    type T = T;
    open spec fn listed_(&self) -> Seq<T> { self@ }
    fn iter_<'a>(&'a self) -> SliceIter<'a, T> { SliceIter { s: self.as_slice(), i: 0 } }
}

/// Bounds of a slice.
pub trait Bounds_ {
    spec fn lo(&self) -> int;
    spec fn hi(&self, len: int) -> int;
}
impl Bounds_ for ::std::ops::Range<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { self.end as int }
}
impl Bounds_ for ::std::ops::RangeTo<usize> {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { self.end as int }
}
impl Bounds_ for ::std::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { len }
}
impl Bounds_ for ::std::ops::RangeFull {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { len }
}
/// What an iterator has left, and questions about it.
pub trait Asked_: Sized {
    type E;
    spec fn left_(&self) -> Seq<Self::E>;
    fn any_<F: Fn(Self::E) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: Self::E| f.requires((x,))
        ensures
            r ==> exists|j: int| 0 <= j < old(self).left_().len() && f.ensures((#[trigger] old(self).left_()[j],), true),
            !r ==> forall|j: int| 0 <= j < old(self).left_().len() ==> f.ensures((#[trigger] old(self).left_()[j],), false);
    fn all_<F: Fn(Self::E) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: Self::E| f.requires((x,))
        ensures
            !r ==> exists|j: int| 0 <= j < old(self).left_().len() && f.ensures((#[trigger] old(self).left_()[j],), false),
            r ==> forall|j: int| 0 <= j < old(self).left_().len() ==> f.ensures((#[trigger] old(self).left_()[j],), true);
    fn position_<F: Fn(Self::E) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|x: Self::E| f.requires((x,))
        ensures
            r is Some ==> r->0 < old(self).left_().len() && f.ensures((old(self).left_()[r->0 as int],), true)
                && forall|j: int| 0 <= j < r->0 ==> f.ensures((#[trigger] old(self).left_()[j],), false),
            r is None ==> forall|j: int| 0 <= j < old(self).left_().len() ==> f.ensures((#[trigger] old(self).left_()[j],), false);
}
impl<'a, T> Asked_ for SliceIter<'a, T> {
    type E = &'a T;
    open spec fn left_(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn any_<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn all_<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn position_<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
}
impl Asked_ for crate::shim::text::EachByte_ {
    type E = u8;
    open spec fn left_(&self) -> Seq<u8> { if 0 <= self.i@ <= self.s@.len() { self.s@.skip(self.i@) } else { Seq::empty() } }
    #[verifier::external_body]
    fn any_<F: Fn(u8) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn all_<F: Fn(u8) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn position_<F: Fn(u8) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
}
} // verus!
