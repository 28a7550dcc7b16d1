//! `std::time`
use vstd::prelude::*;
verus! {
/// A length of time, in nanoseconds.
#[derive(Clone, Copy)]
pub struct Duration { pub secs: u64, pub nanos: u32 }
impl Duration {
    pub open spec fn ns(&self) -> int { self.secs * 1_000_000_000 + self.nanos }
    pub const fn from_secs(s: u64) -> (r: Duration)
        ensures r.ns() == s * 1_000_000_000, r.secs == s, r.nanos == 0
    { Duration { secs: s, nanos: 0 } }
    #[verifier::external_body]
    pub const fn from_millis(s: u64) -> (r: Duration)
        ensures r.ns() == s * 1_000_000, r.secs == s / 1000, r.nanos == (s % 1000) * 1_000_000
    { unimplemented!() }
    pub const fn as_secs(&self) -> (r: u64)
        ensures r == self.secs
    { self.secs }
    pub const fn subsec_nanos(&self) -> (r: u32)
        ensures r == self.nanos
    { self.nanos }
    #[verifier::external_body]
    pub const fn as_millis(&self) -> (r: u128)
        ensures r == self.ns() / 1_000_000
    { unimplemented!() }
    pub const fn is_zero(&self) -> (r: bool)
        ensures r == (self.secs == 0 && self.nanos == 0)
    { self.secs == 0 && self.nanos == 0 }
    #[verifier::external_body]
    pub fn clamp(self, a: Duration, b: Duration) -> (r: Duration)
        requires a.ns() <= b.ns()
        ensures r == (if self.ns() < a.ns() { a } else if self.ns() > b.ns() { b } else { self })
    { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_micros(s: u64) -> (r: Duration)
        ensures r.ns() == s * 1_000, r.nanos < 1_000_000_000
    { unimplemented!() }
    #[verifier::external_body]
    pub const fn from_nanos(s: u64) -> (r: Duration)
        ensures r.ns() == s, r.nanos < 1_000_000_000
    { unimplemented!() }
}
pub open spec fn order_(a: int, b: int) -> ::std::cmp::Ordering {
    if a < b { ::std::cmp::Ordering::Less } else if a == b { ::std::cmp::Ordering::Equal } else { ::std::cmp::Ordering::Greater }
}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Duration) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.secs == o.secs && self.nanos == o.nanos }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> Option<::std::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Duration) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<::std::cmp::Ordering> { Some(order_(self.ns(), o.ns())) }
}
} // verus!
