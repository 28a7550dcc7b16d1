//! `clone`, for what is the same once cloned.
use vstd::prelude::*;
use ::std::sync::Arc;
verus! {

/// A value whose clone is the same value (for what is shared: shares the same).
pub trait Dup_: Sized {
    fn dup_(&self) -> (r: Self)
        ensures r == *self;
}
impl Dup_ for u16 { fn dup_(&self) -> (r: u16) { *self } }
impl Dup_ for u32 { fn dup_(&self) -> (r: u32) { *self } }
impl Dup_ for u64 { fn dup_(&self) -> (r: u64) { *self } }
impl Dup_ for usize { fn dup_(&self) -> (r: usize) { *self } }
impl Dup_ for u8 { fn dup_(&self) -> (r: u8) { *self } }
impl Dup_ for i32 { fn dup_(&self) -> (r: i32) { *self } }
impl Dup_ for crate::shim::bytes::Bytes { #[verifier::external_body] fn dup_(&self) -> (r: Self) { unimplemented!() } }
impl Dup_ for crate::shim::bytestring::ByteString { #[verifier::external_body] fn dup_(&self) -> (r: Self) { unimplemented!() } }
impl Dup_ for crate::shim::coarsetime::Instant { fn dup_(&self) -> (r: Self) { *self } }
impl Dup_ for crate::shim::std::time::Duration { fn dup_(&self) -> (r: Self) { *self } }
impl Dup_ for crate::shim::String { #[verifier::external_body] fn dup_(&self) -> (r: Self) { unimplemented!() } }
impl Dup_ for bool { fn dup_(&self) -> (r: bool) { *self } }
impl Dup_ for crate::shim::std::net::SocketAddr { fn dup_(&self) -> (r: Self) { *self } }
impl<T: Dup_> Dup_ for ::std::ops::Range<T> {
    fn dup_(&self) -> (r: ::std::ops::Range<T>) { ::std::ops::Range { start: self.start.dup_(), end: self.end.dup_() } }
}
impl<T> Dup_ for Arc<T> {
    fn dup_(&self) -> (r: Arc<T>) { self.clone() }
}
impl<A: Dup_, B: Dup_> Dup_ for (A, B) {
    fn dup_(&self) -> (r: (A, B)) { (self.0.dup_(), self.1.dup_()) }
}
impl<T: Dup_> Dup_ for Option<T> {
    fn dup_(&self) -> (r: Option<T>) { match self { Some(x) => Some(x.dup_()), None => None } }
}
impl<T: Dup_> Dup_ for Vec<T> {
    #[verifier::external_body]
    fn dup_(&self) -> (r: Vec<T>) { unimplemented!() }
}

/// `Default::default()`
pub trait Default_: Sized {
    spec fn is_default_(&self) -> bool;
    fn default_() -> (r: Self)
        ensures r.is_default_();
}
impl<T: Default_> Default_ for Arc<T> {
    open spec fn is_default_(&self) -> bool { (**self).is_default_() }
    fn default_() -> Arc<T> { Arc::new(T::default_()) }
}
impl<T> Default_ for Option<T> {
    open spec fn is_default_(&self) -> bool { *self is None }
    fn default_() -> Option<T> { None }
}
impl<T> Default_ for Vec<T> {
    open spec fn is_default_(&self) -> bool { self@ == Seq::<T>::empty() }
    fn default_() -> Vec<T> { Vec::new() }
}
impl Default_ for bool {
    open spec fn is_default_(&self) -> bool { !*self }
    fn default_() -> bool { false }
}
impl Default_ for u64 {
    open spec fn is_default_(&self) -> bool { *self == 0 }
    fn default_() -> u64 { 0 }
}
impl Default_ for usize {
    open spec fn is_default_(&self) -> bool { *self == 0 }
    fn default_() -> usize { 0 }
}
pub fn default_<T: Default_>() -> (r: T)
    ensures r.is_default_()
{ T::default_() }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [::std::mem::drop::<T>] (_0: T)
    where T: ::std::marker::Destruct;
pub assume_specification<T, A: ::std::alloc::Allocator> [::std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut ::std::vec::Vec<T, A>)
    ensures final(v)@ == old(v)@;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [::std::result::Result::<T, E>::unwrap_or] (r: ::std::result::Result<T, E>, d: T) -> (o: T)
    where E: ::std::marker::Destruct, T: ::std::marker::Destruct
    ensures o == (match r { Ok(x) => x, Err(_) => d });

/// Classes of ASCII characters, of bytes.
pub assume_specification [u8::is_ascii] (b: &u8) -> (r: bool)
    ensures r == (*b < 0x80);
pub assume_specification [u8::is_ascii_graphic] (b: &u8) -> (r: bool)
    ensures r == (0x21 <= *b <= 0x7e);
pub assume_specification [u8::is_ascii_punctuation] (b: &u8) -> (r: bool)
    ensures r == (0x21 <= *b <= 0x2f || 0x3a <= *b <= 0x40 || 0x5b <= *b <= 0x60 || 0x7b <= *b <= 0x7e);
pub assume_specification [u8::is_ascii_control] (b: &u8) -> (r: bool)
    ensures r == (*b < 0x20 || *b == 0x7f);
pub assume_specification [u8::is_ascii_whitespace] (b: &u8) -> (r: bool)
    ensures r == (*b == 0x20 || *b == 0x09 || *b == 0x0a || *b == 0x0c || *b == 0x0d);
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool)
    ensures r == (0x30 <= *b <= 0x39);
pub assume_specification [u8::is_ascii_alphabetic] (b: &u8) -> (r: bool)
    ensures r == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool)
    ensures r == (0x30 <= *b <= 0x39 || 0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a);
pub assume_specification [u8::is_ascii_uppercase] (b: &u8) -> (r: bool)
    ensures r == (0x41 <= *b <= 0x5a);
pub assume_specification [u8::is_ascii_lowercase] (b: &u8) -> (r: bool)
    ensures r == (0x61 <= *b <= 0x7a);

/// `Option::cloned`
pub trait Cloned_ {
    type O;
    spec fn of(&self) -> Self::O;
    fn cloned_(self) -> (r: Self::O)
        ensures r == self.of();
}
impl<'a, T: Dup_> Cloned_ for Option<&'a T> {
    type O = Option<T>;
    open spec fn of(&self) -> Option<T> { match self { Some(x) => Some(**x), None => None } }
    fn cloned_(self) -> (r: Option<T>) { match self { Some(x) => Some(x.dup_()), None => None } }
}
/// `pow`
pub open spec fn power(b: int, e: nat) -> int
    decreases e
{ if e == 0 { 1 } else { b * power(b, (e - 1) as nat) } }
pub trait Pow_: Sized {
    spec fn v_(&self) -> int;
    spec fn max_() -> int;
    fn pow_(self, e: u32) -> (r: Self)
        requires crate::shim::power(self.v_(), e as nat) <= Self::max_()
        ensures r.v_() == crate::shim::power(self.v_(), e as nat);
}
impl Pow_ for usize {
    open spec fn v_(&self) -> int { *self as int }
    open spec fn max_() -> int { usize::MAX as int }
    #[verifier::external_body]
    fn pow_(self, e: u32) -> usize { unimplemented!() }
}
impl Pow_ for u64 {
    open spec fn v_(&self) -> int { *self as int }
    open spec fn max_() -> int { u64::MAX as int }
    #[verifier::external_body]
    fn pow_(self, e: u32) -> u64 { unimplemented!() }
}
impl Pow_ for u32 {
    open spec fn v_(&self) -> int { *self as int }
    open spec fn max_() -> int { u32::MAX as int }
    #[verifier::external_body]
    fn pow_(self, e: u32) -> u32 { unimplemented!() }
}

/// A string literal.
#[verifier::external_body]
pub fn lit_<const N: usize>(b: &[u8; N]) -> (r: &'static str)
    ensures crate::shim::text::str_bytes(r@) == b@
{ unimplemented!() }

} // verus!
