//! What the rewritten constructs become.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

/// `e?` converts the error with `From`.
#[verifier::external_body]
pub broadcast proof fn axiom_question_mark<S: From<T>, T>(a: T, b: S)
    requires
        #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(a, b),
        <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec(),
    ensures b == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(a)
{ }

/// Concatenations, all nested to the right.
pub broadcast proof fn lemma_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_add_empty<T>(a: Seq<T>, b: Seq<T>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a
{ assert((a + b) =~= a); }
pub broadcast group group_cat { lemma_assoc, lemma_add_empty }

/// Nothing.
pub fn touch_<T>(x: &mut T)
    ensures *final(x) == *old(x)
{ }

/// `panic!` and the like: must be unreachable.
#[verifier::external_body]
pub fn abort_<T>() -> T
    requires false
{ unimplemented!() }

/// `assert!`: must hold.
#[verifier::external_body]
pub fn must_(b: bool)
    requires b
{ unimplemented!() }

/// `vec![x; n]`
#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (v: Vec<T>)
    ensures v@.len() == n, forall|i: int| 0 <= i < n ==> v@[i] == x
{ unimplemented!() }

/// `Vec::with_capacity(n)`: aborts when so much can't be allocated, so what is
/// asked for must be in proportion to what was received.
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (v: Vec<T>)
    requires n < 0x80_0000_0000_0000
    ensures v@ == Seq::<T>::empty()
{ unimplemented!() }

/// The values of a range, one every `step`.
pub struct Steps<T> { pub cur: T, pub end: T, pub step: usize }
pub trait StepInt: Copy {
    spec fn v(self) -> int;
}
impl StepInt for u64 { open spec fn v(self) -> int { self as int } }
impl StepInt for usize { open spec fn v(self) -> int { self as int } }
impl StepInt for u32 { open spec fn v(self) -> int { self as int } }
impl StepInt for u16 { open spec fn v(self) -> int { self as int } }
impl StepInt for i32 { open spec fn v(self) -> int { self as int } }

/// `a..b`
pub fn range_<T: StepInt>(a: T, b: T) -> (r: Steps<T>)
    ensures r.cur == a, r.end == b, r.step == 1
{ Steps { cur: a, end: b, step: 1 } }

/// `(a..b).step_by(k)`
pub fn step_range<T: StepInt>(a: T, b: T, k: usize) -> (r: Steps<T>)
    requires k > 0
    ensures r.cur == a, r.end == b, r.step == k
{ Steps { cur: a, end: b, step: k } }

impl<T: StepInt> Steps<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).step > 0
        ensures
            final(self).end == old(self).end, final(self).step == old(self).step,
            old(self).cur.v() < old(self).end.v() ==> r == Some(old(self).cur)
                && final(self).cur.v() == (if old(self).end.v() - old(self).cur.v() <= old(self).step { old(self).end.v() } else { old(self).cur.v() + old(self).step }),
            old(self).cur.v() >= old(self).end.v() ==> r is None && final(self).cur == old(self).cur,
    { unimplemented!() }
}

} // verus!
