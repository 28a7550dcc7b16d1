//! What closures given to `Option` and `Result`, and comparisons with string
//! literals, are rewritten with.
use vstd::prelude::*;
use super::text::*;
verus! {

/// `x == "literal"`, `"literal" =>`.
#[verifier::external_body]
pub fn str_is<T: StrLike + ?Sized, const N: usize>(x: &T, b: &[u8; N]) -> (r: bool)
    ensures r == (x.bytes_() =~= b@)
{ unimplemented!() }

/// `&x[..]`
pub trait Full_: Sized {
    fn full_(&self) -> (r: &Self)
        ensures *r == *self;
}
impl<T> Full_ for T {
    fn full_(&self) -> (r: &Self) { self }
}

pub struct Nothing_ { }
pub struct Failed_<E> { pub e: E }

/// An `Option` or a `Result`.
pub trait Open_: Sized {
    type T;
    type M;
    spec fn opened(&self) -> Result<Self::T, Self::M>;
    fn open_(self) -> (r: Result<Self::T, Self::M>)
        ensures r == self.opened();
}
impl<X> Open_ for Option<X> {
    type T = X;
    type M = Nothing_;
    open spec fn opened(&self) -> Result<X, Nothing_> {
        match *self { Some(x) => Ok(x), None => Err(Nothing_ { }) }
    }
    fn open_(self) -> Result<X, Nothing_> {
        match self { Some(x) => Ok(x), None => Err(Nothing_ { }) }
    }
}
impl<X, E> Open_ for Result<X, E> {
    type T = X;
    type M = Failed_<E>;
    open spec fn opened(&self) -> Result<X, Failed_<E>> {
        match *self { Ok(x) => Ok(x), Err(e) => Err(Failed_ { e }) }
    }
    fn open_(self) -> Result<X, Failed_<E>> {
        match self { Ok(x) => Ok(x), Err(e) => Err(Failed_ { e }) }
    }
}
/// Which of the two it was.
pub trait Mark_<U>: Sized {
    type O;
    spec fn good(u: U) -> Self::O;
    spec fn bad(&self) -> Self::O;
    fn good_(u: U) -> (r: Self::O)
        ensures r == Self::good(u);
    fn bad_(self) -> (r: Self::O)
        ensures r == self.bad();
}
impl<U> Mark_<U> for Nothing_ {
    type O = Option<U>;
    open spec fn good(u: U) -> Option<U> { Some(u) }
    open spec fn bad(&self) -> Option<U> { None }
    fn good_(u: U) -> Option<U> { Some(u) }
    fn bad_(self) -> Option<U> { None }
}
impl<U, E> Mark_<U> for Failed_<E> {
    type O = Result<U, E>;
    open spec fn good(u: U) -> Result<U, E> { Ok(u) }
    open spec fn bad(&self) -> Result<U, E> { Err(self.e) }
    fn good_(u: U) -> Result<U, E> { Ok(u) }
    fn bad_(self) -> Result<U, E> { Err(self.e) }
}
pub fn rebuild_<U, M: Mark_<U>>(x: Result<U, M>) -> (r: M::O)
    ensures r == (match x { Ok(u) => M::good(u), Err(m) => m.bad() })
{
    match x { Ok(u) => M::good_(u), Err(m) => m.bad_() }
}
/// What `and_then` gives back when there is nothing.
pub trait Reopen_<O>: Sized {
    spec fn again(&self) -> O;
    fn again_(self) -> (r: O)
        ensures r == self.again();
}
impl<U> Reopen_<Option<U>> for Nothing_ {
    open spec fn again(&self) -> Option<U> { None }
    fn again_(self) -> Option<U> { None }
}
impl<U, E> Reopen_<Result<U, E>> for Failed_<E> {
    open spec fn again(&self) -> Result<U, E> { Err(self.e) }
    fn again_(self) -> Result<U, E> { Err(self.e) }
}
pub fn reopen_<O, M: Reopen_<O>>(m: M) -> (r: O)
    ensures r == m.again()
{ m.again_() }

} // verus!
