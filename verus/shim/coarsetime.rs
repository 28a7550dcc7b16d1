//! `coarsetime`: instants and durations count 2^-32 of a second.
use vstd::prelude::*;
use crate::shim::World;
use crate::spec::world::*;
verus! {
pub struct Instant { pub t: u64 }
pub struct Duration { pub t: u64 }

impl Clone for Instant { fn clone(&self) -> (r: Instant) ensures r == *self { Instant { t: self.t } } }
impl Copy for Instant {}
impl Clone for Duration { fn clone(&self) -> (r: Duration) ensures r == *self { Duration { t: self.t } } }
impl Copy for Duration {}

impl Instant {
    /// Reads the clock, which is far from its last value.
    #[verifier::external_body]
    pub fn now(w: &mut World) -> (r: Instant)
        ensures r.t < 0x8000_0000_0000_0000, final(w).did(old(w), Ev::Clock { t: r.t as int })
    { unimplemented!() }
    /// What it was when it was read the last time, by any thread, whenever that was.
    #[verifier::external_body]
    pub fn recent(w: &mut World) -> (r: Instant)
        ensures *final(w) == *old(w)
    { unimplemented!() }
}
impl Instant {
    pub fn duration_since(&self, earlier: Instant) -> (r: Duration)
        ensures r.t == (if self.t > earlier.t { self.t - earlier.t } else { 0 })
    { Duration { t: if self.t > earlier.t { self.t - earlier.t } else { 0 } } }
    pub fn as_ticks(&self) -> (r: u64) ensures r == self.t { self.t }
    pub fn as_u64(&self) -> (r: u64) ensures r == self.t { self.t }
}
impl Duration {
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.t / 0x1_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u64) ensures r == self.t * 1000 / 0x1_0000_0000 { unimplemented!() }
    pub fn as_ticks(&self) -> (r: u64) ensures r == self.t { self.t }
    pub fn as_u64(&self) -> (r: u64) ensures r == self.t { self.t }
    pub fn from_u64(t: u64) -> (r: Duration) ensures r.t == t { Duration { t } }
    pub fn from_ticks(t: u64) -> (r: Duration) ensures r.t == t { Duration { t } }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures s < 0x1_0000_0000 ==> r.t == s * 0x1_0000_0000 { unimplemented!() }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.t == 0) { self.t == 0 }
}
impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Instant) -> bool { true }
    open spec fn sub_spec(self, o: Instant) -> Duration { Duration { t: (if self.t > o.t { self.t - o.t } else { 0 }) as u64 } }
}
impl ::std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration { Duration { t: if self.t > o.t { self.t - o.t } else { 0 } } }
}
impl PartialEq for Duration {
    fn eq(&self, o: &Duration) -> bool { self.t == o.t }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.t == o.t }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> Option<::std::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Duration) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Duration) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<::std::cmp::Ordering> {
        Some(if self.t < o.t { ::std::cmp::Ordering::Less } else if self.t == o.t { ::std::cmp::Ordering::Equal } else { ::std::cmp::Ordering::Greater })
    }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.t + d.t <= u64::MAX }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { t: (self.t + d.t) as u64 } }
}
impl ::std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant { Instant { t: self.t + d.t } }
}
impl PartialEq for Instant {
    fn eq(&self, o: &Instant) -> bool { self.t == o.t }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t == o.t }
}
impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<::std::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &Instant) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &Instant) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &Instant) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &Instant) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<::std::cmp::Ordering> {
        Some(if self.t < o.t { ::std::cmp::Ordering::Less } else if self.t == o.t { ::std::cmp::Ordering::Equal } else { ::std::cmp::Ordering::Greater })
    }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::std::time::Duration> for Duration {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(d: crate::shim::std::time::Duration) -> Duration { Duration { t: span(d.ns()) as u64 } }
}
impl From<crate::shim::std::time::Duration> for Duration {
    #[verifier::external_body]
    fn from(d: crate::shim::std::time::Duration) -> Duration { unimplemented!() }
}
} // verus!
