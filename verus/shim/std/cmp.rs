//! `std::cmp`
use vstd::prelude::*;
pub use ::std::cmp::Ordering;
verus! {
/// Things with a smallest and a greatest of two.
pub trait Ordered_: Sized {
    spec fn rank_(&self) -> int;
    fn least_(a: Self, b: Self) -> (r: Self)
        ensures r == (if b.rank_() < a.rank_() { b } else { a });
    fn most_(a: Self, b: Self) -> (r: Self)
        ensures r == (if a.rank_() > b.rank_() { a } else { b });
    fn min_(self, b: Self) -> (r: Self)
        ensures r == (if b.rank_() < self.rank_() { b } else { self });
    fn max_(self, b: Self) -> (r: Self)
        ensures r == (if self.rank_() > b.rank_() { self } else { b });
    fn clamp_(self, lo: Self, hi: Self) -> (r: Self)
        requires lo.rank_() <= hi.rank_()
        ensures r == (if self.rank_() < lo.rank_() { lo } else if self.rank_() > hi.rank_() { hi } else { self });
}
macro_rules! ordered {
    ($($t:ty),*) => { $(verus! {
        impl Ordered_ for $t {
            open spec fn rank_(&self) -> int { *self as int }
            fn least_(a: Self, b: Self) -> Self { if b < a { b } else { a } }
            fn most_(a: Self, b: Self) -> Self { if a > b { a } else { b } }
            fn min_(self, b: Self) -> Self { if b < self { b } else { self } }
            fn max_(self, b: Self) -> Self { if self > b { self } else { b } }
            fn clamp_(self, lo: Self, hi: Self) -> Self { if self < lo { lo } else if self > hi { hi } else { self } }
        }
    })* }
}
ordered!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Ordered_ for super::time::Duration {
    open spec fn rank_(&self) -> int { self.ns() }
    fn least_(a: Self, b: Self) -> Self { if b < a { b } else { a } }
    fn most_(a: Self, b: Self) -> Self { if a > b { a } else { b } }
            fn min_(self, b: Self) -> Self { if b < self { b } else { self } }
            fn max_(self, b: Self) -> Self { if self > b { self } else { b } }
            fn clamp_(self, lo: Self, hi: Self) -> Self { if self < lo { lo } else if self > hi { hi } else { self } }
}
impl Ordered_ for crate::shim::coarsetime::Duration {
    open spec fn rank_(&self) -> int { self.t as int }
    fn least_(a: Self, b: Self) -> Self { if b < a { b } else { a } }
    fn most_(a: Self, b: Self) -> Self { if a > b { a } else { b } }
            fn min_(self, b: Self) -> Self { if b < self { b } else { self } }
            fn max_(self, b: Self) -> Self { if self > b { self } else { b } }
            fn clamp_(self, lo: Self, hi: Self) -> Self { if self < lo { lo } else if self > hi { hi } else { self } }
}
impl Ordered_ for crate::shim::coarsetime::Instant {
    open spec fn rank_(&self) -> int { self.t as int }
    fn least_(a: Self, b: Self) -> Self { if b < a { b } else { a } }
    fn most_(a: Self, b: Self) -> Self { if a > b { a } else { b } }
            fn min_(self, b: Self) -> Self { if b < self { b } else { self } }
            fn max_(self, b: Self) -> Self { if self > b { self } else { b } }
            fn clamp_(self, lo: Self, hi: Self) -> Self { if self < lo { lo } else if self > hi { hi } else { self } }
}
pub fn min<T: Ordered_>(a: T, b: T) -> (r: T)
    ensures r == (if b.rank_() < a.rank_() { b } else { a })
{ T::least_(a, b) }
pub fn max<T: Ordered_>(a: T, b: T) -> (r: T)
    ensures r == (if a.rank_() > b.rank_() { a } else { b })
{ T::most_(a, b) }
} // verus!
