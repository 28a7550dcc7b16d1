//! `format!` and `write!`: pieces appended one after the other.
use vstd::prelude::*;
use super::text::*;
verus! {

#[verifier::external_body]
pub struct Fmt { s: ::std::vec::Vec<u8> }
impl View for Fmt {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl Fmt {
    #[verifier::external_body]
    pub fn new() -> (r: Fmt)
        ensures r@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lit<const N: usize>(self, b: &[u8; N]) -> (r: Fmt)
        ensures r@ == self@ + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Shown + ?Sized>(self, x: &T) -> (r: Fmt)
        ensures r@ == self@ + x.shown()
    { unimplemented!() }
    /// `{:?}`: some text.
    #[verifier::external_body]
    pub fn dbg<T: ?Sized>(self, x: &T) -> (r: Fmt)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String)
        ensures r@ == self@
    { unimplemented!() }
}

/// `write!(w, ..)`
pub trait WriteTo: Sized {
    spec fn after(&self, s: Seq<u8>, out: &Self) -> bool;
    fn write_fmt_(&mut self, f: Fmt) -> (r: Result<(), super::std::io::Error>)
        ensures r is Ok, old(self).after(f@, final(self));
}
pub fn write_to<W: WriteTo>(w: &mut W, f: Fmt) -> (r: Result<(), super::std::io::Error>)
    ensures r is Ok, old(w).after(f@, final(w))
{ w.write_fmt_(f) }
} // verus!
