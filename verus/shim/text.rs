//! Texts: `String`, `&str` as seen by the code.
use vstd::prelude::*;
use crate::spec::resp::dig;
use crate::spec::request::{lower, upper, folded, upper_};
verus! {

/// The bytes of a text.
pub trait StrLike {
    spec fn bytes_(&self) -> Seq<u8>;
}

/// The bytes of a string literal.
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;

impl StrLike for str {
    open spec fn bytes_(&self) -> Seq<u8> { str_bytes(self@) }
}
impl<'a, T: StrLike + ?Sized> StrLike for &'a T {
    open spec fn bytes_(&self) -> Seq<u8> { (**self).bytes_() }
}

/// `std::string::String`
#[verifier::external_body]
#[derive(Debug)]
pub struct String { s: ::std::string::String }
impl View for String {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}
impl StrLike for String {
    open spec fn bytes_(&self) -> Seq<u8> { self@ }
}

impl String {
    pub fn as_str(&self) -> (r: &String)
        ensures r == self
    { self }
    #[verifier::external_body]
    pub fn new() -> (r: String)
        ensures r@ == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
}
impl crate::shim::Default_ for String {
    open spec fn is_default_(&self) -> bool { self@ == Seq::<u8>::empty() }
    fn default_() -> String { String::new() }
}
/// What `to_string` and `{}` give.
pub trait Shown {
    spec fn shown(&self) -> Seq<u8>;
}
impl Shown for u64 { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for u16 { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for u8 { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for usize { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for i64 { open spec fn shown(&self) -> Seq<u8> { if *self < 0 { seq![45u8] + dig((-*self) as nat) } else { dig(*self as nat) } } }
impl Shown for u128 { open spec fn shown(&self) -> Seq<u8> { dig(*self as nat) } }
impl Shown for char { open spec fn shown(&self) -> Seq<u8> { char_bytes(*self) } }
impl Shown for i32 { open spec fn shown(&self) -> Seq<u8> { if *self < 0 { seq![45u8] + dig((-*self) as nat) } else { dig(*self as nat) } } }
impl Shown for str { open spec fn shown(&self) -> Seq<u8> { str_bytes(self@) } }
impl Shown for String { open spec fn shown(&self) -> Seq<u8> { self@ } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { open spec fn shown(&self) -> Seq<u8> { (**self).shown() } }

pub trait ToString_ {
    spec fn to_string_spec(&self) -> Seq<u8>;
    fn to_string_(&self) -> (r: String)
        ensures r@ == self.to_string_spec();
}
impl<T: Shown + ?Sized> ToString_ for T {
    open spec fn to_string_spec(&self) -> Seq<u8> { self.shown() }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
/// `to_lowercase` and `to_uppercase`
pub trait Case_ {
    spec fn text_(&self) -> Seq<u8>;
    fn to_lowercase_(&self) -> (r: String)
        ensures r@ == lower(self.text_());
    fn to_uppercase_(&self) -> (r: String)
        ensures r@ == upper(self.text_());
}
impl<T: StrLike + ?Sized> Case_ for T {
    open spec fn text_(&self) -> Seq<u8> { self.bytes_() }
    #[verifier::external_body]
    fn to_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_uppercase_(&self) -> (r: String) { unimplemented!() }
}

/// `to_ascii_lowercase`, `to_ascii_uppercase`, `eq_ignore_ascii_case`
pub trait AsciiCase_: StrLike {
    fn to_ascii_lowercase_(&self) -> (r: String)
        ensures r@ == folded(self.bytes_());
    fn to_ascii_uppercase_(&self) -> (r: String)
        ensures r@ == upper_(self.bytes_());
    fn eq_ignore_ascii_case_<U: StrLike + ?Sized>(&self, o: &U) -> (r: bool)
        ensures r == (folded(self.bytes_()) =~= folded(o.bytes_()));
}
impl<T: StrLike + ?Sized> AsciiCase_ for T {
    #[verifier::external_body]
    fn to_ascii_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn to_ascii_uppercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn eq_ignore_ascii_case_<U: StrLike + ?Sized>(&self, o: &U) -> (r: bool) { unimplemented!() }
}

/// `as_bytes`
pub trait AsBytes_ {
    spec fn of_(&self) -> Seq<u8>;
    fn as_bytes_(&self) -> (r: &[u8])
        ensures r@ == self.of_();
}
impl<T: StrLike + ?Sized> AsBytes_ for T {
    open spec fn of_(&self) -> Seq<u8> { self.bytes_() }
    #[verifier::external_body]
    fn as_bytes_(&self) -> (r: &[u8]) { unimplemented!() }
}
/// `bytes`
pub struct EachByte_ { pub s: Ghost<Seq<u8>>, pub i: Ghost<int> }
pub trait EachByteOf_ {
    spec fn all_(&self) -> Seq<u8>;
    fn each_byte_(&self) -> (r: EachByte_)
        ensures r.s@ == self.all_(), r.i@ == 0;
}
impl<T: StrLike + ?Sized> EachByteOf_ for T {
    open spec fn all_(&self) -> Seq<u8> { self.bytes_() }
    #[verifier::external_body]
    fn each_byte_(&self) -> (r: EachByte_) { unimplemented!() }
}
impl EachByte_ {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures
            final(self).s == old(self).s,
            old(self).i@ < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i@]) && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
impl super::iter::Iter_ for EachByte_ {
    type It = EachByte_;
    fn __iter(self) -> (r: EachByte_)
        ensures r == self
    { self }
}
/// `split_terminator`, at the line feeds.
pub struct Pieces_ { pub s: Ghost<Seq<Seq<u8>>>, pub i: Ghost<int> }
pub trait Pieces {
    spec fn whole_(&self) -> Seq<u8>;
    fn split_terminator_(&'static self, c: char) -> (r: Pieces_)
        requires c == '\n'
        ensures r.s@ == crate::spec::reply::lines(self.whole_()), r.i@ == 0;
}
impl Pieces for str {
    open spec fn whole_(&self) -> Seq<u8> { self.bytes_() }
    #[verifier::external_body]
    fn split_terminator_(&'static self, c: char) -> (r: Pieces_) { unimplemented!() }
}
impl Pieces_ {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures
            final(self).s == old(self).s,
            old(self).i@ < old(self).s@.len() ==> r is Some && str_bytes(r->0@) == old(self).s@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
impl super::iter::Iter_ for Pieces_ {
    type It = Pieces_;
    fn __iter(self) -> (r: Pieces_)
        ensures r == self
    { self }
}

/// The bytes of a character.
pub open spec fn char_bytes(c: char) -> Seq<u8> { if (c as u32) < 128 { seq![c as u8] } else { wide_bytes(c) } }
pub uninterp spec fn wide_bytes(c: char) -> Seq<u8>;
/// What is looked for in a text.
pub trait Pat_ {
    spec fn pat_(&self) -> Seq<u8>;
}
impl Pat_ for char { open spec fn pat_(&self) -> Seq<u8> { char_bytes(*self) } }
impl<'a, T: StrLike + ?Sized> Pat_ for &'a T { open spec fn pat_(&self) -> Seq<u8> { (**self).bytes_() } }
pub open spec fn begins(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn finishes(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub open spec fn has_at(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
pub open spec fn has(s: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| #[trigger] has_at(s, p, i) }
/// What `trim` and the like leave, of which characters.
pub uninterp spec fn trimmed(s: Seq<u8>, front: bool, back: bool) -> Seq<u8>;
pub open spec fn solid(b: u8) -> bool { 0x20 < b < 0x7f }
#[verifier::external_body]
pub broadcast proof fn axiom_trimmed(s: Seq<u8>, front: bool, back: bool)
    ensures
        (#[trigger] trimmed(s, front, back)).len() <= s.len(),
        s.len() == 0 || (front ==> solid(s[0])) && (back ==> solid(s.last())) ==> trimmed(s, front, back) == s,
{ }
pub uninterp spec fn trimmed_of<P>(s: Seq<u8>, p: P, front: bool, back: bool) -> Seq<u8>;
/// How many characters: the bytes that start one.
#[verifier::opaque]
pub open spec fn chars_of(s: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { chars_of(s.drop_last()) + if 0x80 <= s.last() <= 0xbf { 0nat } else { 1nat } } }
pub proof fn lemma_chars_of(s: Seq<u8>)
    ensures chars_of(s) <= s.len(), (forall|i: int| 0 <= i < s.len() ==> s[i] < 128) ==> chars_of(s) == s.len()
    decreases s.len()
{
    reveal(chars_of);
    if s.len() > 0 { lemma_chars_of(s.drop_last()); }
}
pub broadcast proof fn lemma_chars(s: Seq<u8>)
    ensures #[trigger] chars_of(s) <= s.len(), (forall|i: int| 0 <= i < s.len() ==> s[i] < 128) ==> chars_of(s) == s.len()
{ lemma_chars_of(s); }
pub struct Chars_ { pub s: Ghost<Seq<u8>> }
impl Chars_ {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == chars_of(self.s@)
    { unimplemented!() }
}
/// Questions about texts.
pub trait Search_: StrLike {
    fn starts_with_<P: Pat_>(&self, p: P) -> (r: bool)
        ensures r == begins(self.bytes_(), p.pat_());
    fn ends_with_<P: Pat_>(&self, p: P) -> (r: bool)
        ensures r == finishes(self.bytes_(), p.pat_());
    fn strip_prefix_<P: Pat_>(&self, p: P) -> (r: Option<&str>)
        ensures
            r is Some == begins(self.bytes_(), p.pat_()),
            r is Some ==> str_bytes(r->0@) =~= self.bytes_().skip(p.pat_().len() as int);
    fn strip_suffix_<P: Pat_>(&self, p: P) -> (r: Option<&str>)
        ensures
            r is Some == finishes(self.bytes_(), p.pat_()),
            r is Some ==> str_bytes(r->0@) =~= self.bytes_().subrange(0, self.bytes_().len() - p.pat_().len());
    fn trim_(&self) -> (r: &str)
        ensures str_bytes(r@) == trimmed(self.bytes_(), true, true);
    fn trim_start_(&self) -> (r: &str)
        ensures str_bytes(r@) == trimmed(self.bytes_(), true, false);
    fn trim_end_(&self) -> (r: &str)
        ensures str_bytes(r@) == trimmed(self.bytes_(), false, true);
    fn trim_matches_<P>(&self, p: P) -> (r: &str)
        ensures str_bytes(r@) == trimmed_of(self.bytes_(), p, true, true);
    fn trim_start_matches_<P>(&self, p: P) -> (r: &str)
        ensures str_bytes(r@) == trimmed_of(self.bytes_(), p, true, false);
    fn trim_end_matches_<P>(&self, p: P) -> (r: &str)
        ensures str_bytes(r@) == trimmed_of(self.bytes_(), p, false, true);
    fn chars_(&self) -> (r: Chars_)
        ensures r.s@ == self.bytes_();
    fn parse_<T: FromText_>(&self) -> (r: Result<T, ParseIntError>)
        ensures r is Ok <==> T::read_(self.bytes_()) is Some, r is Ok ==> r->Ok_0 == T::read_(self.bytes_())->0;
    fn is_char_boundary_(&self, i: usize) -> (r: bool)
        ensures i > self.bytes_().len() ==> !r, i == 0 || i == self.bytes_().len() ==> r;
}
pub struct ParseIntError { pub x: () }
/// What the standard library reads as a number: a `+` may stand in front.
pub trait FromText_: Sized {
    spec fn read_(s: Seq<u8>) -> Option<Self>;
}
impl FromText_ for u64 {
    open spec fn read_(s: Seq<u8>) -> Option<u64> {
        let t = if s.len() > 1 && s[0] == 43u8 { s.skip(1) } else { s };
        if t.len() > 0 && (forall|i: int| 0 <= i < t.len() ==> 48 <= #[trigger] t[i] <= 57) && crate::spec::resp::digits_value(t) <= u64::MAX { Some(crate::spec::resp::digits_value(t) as u64) } else { None }
    }
}
pub uninterp spec fn read_other<T>(s: Seq<u8>) -> Option<T>;
impl FromText_ for u32 { open spec fn read_(s: Seq<u8>) -> Option<u32> { read_other(s) } }
impl FromText_ for u16 { open spec fn read_(s: Seq<u8>) -> Option<u16> { read_other(s) } }
impl FromText_ for usize { open spec fn read_(s: Seq<u8>) -> Option<usize> { read_other(s) } }
impl FromText_ for i64 { open spec fn read_(s: Seq<u8>) -> Option<i64> { read_other(s) } }
impl<T: StrLike + ?Sized> Search_ for T {
    #[verifier::external_body]
    fn starts_with_<P: Pat_>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with_<P: Pat_>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix_<P: Pat_>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn strip_suffix_<P: Pat_>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_matches_<P>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start_matches_<P>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_matches_<P>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn chars_(&self) -> (r: Chars_) { unimplemented!() }
    #[verifier::external_body]
    fn parse_<N: FromText_>(&self) -> (r: Result<N, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn is_char_boundary_(&self, i: usize) -> (r: bool) { unimplemented!() }
}
impl String {
    #[verifier::external_body]
    pub fn contains<P: Pat_>(&self, p: P) -> (r: bool)
        ensures r == has(self@, p.pat_())
    { unimplemented!() }
}
impl crate::shim::bytestring::ByteString {
    #[verifier::external_body]
    pub fn contains<P: Pat_>(&self, p: P) -> (r: bool)
        ensures r == has(self@, p.pat_())
    { unimplemented!() }
}
/// Bytes looked for in bytes.
pub trait BytesPat_ {
    spec fn bpat_(&self) -> Seq<u8>;
}
impl BytesPat_ for [u8] { open spec fn bpat_(&self) -> Seq<u8> { self@ } }
impl<const N: usize> BytesPat_ for [u8; N] { open spec fn bpat_(&self) -> Seq<u8> { self@ } }
impl BytesPat_ for crate::shim::bytes::Bytes { open spec fn bpat_(&self) -> Seq<u8> { self@ } }
impl BytesPat_ for Vec<u8> { open spec fn bpat_(&self) -> Seq<u8> { self@ } }
pub trait SearchBytes_ {
    spec fn in_(&self) -> Seq<u8>;
    fn starts_with_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: bool)
        ensures r == begins(self.in_(), p.bpat_());
    fn ends_with_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: bool)
        ensures r == finishes(self.in_(), p.bpat_());
    fn strip_prefix_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: Option<&[u8]>)
        ensures r is Some == begins(self.in_(), p.bpat_()), r is Some ==> r->0@ =~= self.in_().skip(p.bpat_().len() as int);
    fn strip_suffix_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: Option<&[u8]>)
        ensures r is Some == finishes(self.in_(), p.bpat_()), r is Some ==> r->0@ =~= self.in_().subrange(0, self.in_().len() - p.bpat_().len());
}
impl SearchBytes_ for [u8] {
    open spec fn in_(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn starts_with_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: Option<&[u8]>) { unimplemented!() }
    #[verifier::external_body]
    fn strip_suffix_<P: BytesPat_ + ?Sized>(&self, p: &P) -> (r: Option<&[u8]>) { unimplemented!() }
}
impl EachByte_ {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: EachByte_)
        ensures r.s@ == (if n < self.s@.len() - self.i@ { self.s@.take(self.i@ + n) } else { self.s@ }), r.i == self.i
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: EachByte_)
        ensures r.s == self.s, r.i@ == (if self.i@ + n < self.s@.len() { self.i@ + n } else { self.s@.len() as int })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == (if self.i@ < self.s@.len() { self.s@.len() - self.i@ } else { 0 })
    { unimplemented!() }
}
/// `String::from_utf8_lossy`
pub struct Lossy_ { pub s: Ghost<Seq<u8>> }
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
impl String {
    #[verifier::external_body]
    pub fn from_utf8_lossy(b: &[u8]) -> (r: Lossy_)
        ensures r.s@ == (if crate::spec::resp::utf8(b@) { b@ } else { lossy(b@) })
    { unimplemented!() }
}
impl StrLike for Lossy_ {
    open spec fn bytes_(&self) -> Seq<u8> { self.s@ }
}
impl Lossy_ {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self.s@ { unimplemented!() }
}
} // verus!
