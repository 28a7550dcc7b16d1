//! `std::sync`
use vstd::prelude::*;
pub use ::std::sync::Arc;
pub mod atomic {
use vstd::prelude::*;
use crate::shim::World;
use crate::spec::world::*;
verus! {
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
/// A count nothing depends on.
pub struct AtomicU32 { pub id: Ghost<int> }
impl AtomicU32 {
    #[verifier::external_body]
    pub fn new(x: u32) -> AtomicU32 { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u32, o: Ordering) -> u32 { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> u32 { unimplemented!() }
}
/// Another count nothing depends on.
pub struct AtomicU16 { pub id: Ghost<int> }
impl AtomicU16 {
    #[verifier::external_body]
    pub fn new(x: u16) -> AtomicU16 { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u16, o: Ordering) -> u16 { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> u16 { unimplemented!() }
}
/// A counter numbers are drawn from.
pub struct AtomicU64 { pub id: Ghost<int>, pub start: Ghost<int> }
impl AtomicU64 {
    #[verifier::external_body]
    pub fn new(x: u64) -> (r: AtomicU64)
        ensures r.start@ == x
    { unimplemented!() }
    /// Drawing from it is adding one.
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u64, o: Ordering, w: &mut World) -> (r: u64)
        ensures
            n == 1 ==> drawn(final(w).evs(), r as int),
            final(w).did(old(w), if n == 1 { Ev::Ticket { counter: self.id@, n: r as int } } else { Ev::Other })
    { unimplemented!() }
}
impl AtomicU64 {
    /// Nobody knows what is in it afterwards.
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: u64)
        ensures *final(w) == *old(w)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: u64, o: Ordering, w: &mut World)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: u64, o: Ordering, w: &mut World) -> (r: u64)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: u64, o: Ordering, w: &mut World) -> (r: u64)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: u64, o: Ordering, w: &mut World) -> (r: u64)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, v: u64, o: Ordering, w: &mut World) -> (r: u64)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
    /// Drawing from it, when it goes up by one.
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: u64, b: u64, o: Ordering, p: Ordering, w: &mut World) -> (r: Result<u64, u64>)
        ensures
            r is Ok ==> r->Ok_0 == a,
            r is Ok && b == a + 1 ==> drawn(final(w).evs(), a as int) && final(w).did(old(w), Ev::Ticket { counter: self.id@, n: a as int }),
            r is Ok && b != a + 1 ==> final(w).did(old(w), Ev::Other),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, a: u64, b: u64, o: Ordering, p: Ordering, w: &mut World) -> (r: Result<u64, u64>)
        ensures
            r is Ok ==> r->Ok_0 == a,
            r is Ok && b == a + 1 ==> drawn(final(w).evs(), a as int) && final(w).did(old(w), Ev::Ticket { counter: self.id@, n: a as int }),
            r is Ok && b != a + 1 ==> final(w).did(old(w), Ev::Other),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
}
/// A flag.
pub struct AtomicBool { pub id: Ghost<int>, pub start: Ghost<bool> }
impl AtomicBool {
    #[verifier::external_body]
    pub fn new(x: bool) -> (r: AtomicBool)
        ensures r.start@ == x
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: bool)
        ensures final(w).did(old(w), Ev::Flag { flag: self.id@, v: r })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, w: &mut World)
        ensures final(w).did(old(w), if v { Ev::Raise { flag: self.id@ } } else { Ev::Other })
    { unimplemented!() }
}
impl AtomicBool {
    #[verifier::external_body]
    pub fn fetch_or(&self, v: bool, o: Ordering, w: &mut World) -> (r: bool)
        ensures final(w).did(old(w), if v { Ev::Raise { flag: self.id@ } } else { Ev::Flag { flag: self.id@, v: r } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: Ordering, w: &mut World) -> (r: bool)
        ensures final(w).did(old(w), if v { Ev::Raise { flag: self.id@ } } else { Ev::Other })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, v: bool, o: Ordering, w: &mut World) -> (r: bool)
        ensures final(w).did(old(w), if !v { Ev::Other } else { Ev::Flag { flag: self.id@, v: r } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_xor(&self, v: bool, o: Ordering, w: &mut World) -> (r: bool)
        ensures final(w).did(old(w), Ev::Other)
    { unimplemented!() }
}
} // verus!
}
