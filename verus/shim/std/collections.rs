//! `std::collections`
use vstd::prelude::*;
use crate::shim::World;
verus! {
/// `BTreeMap`, of numbered things.
pub struct BTreeMap<K, V> { pub m: Ghost<Map<int, V>>, pub t: ::std::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> {
    type V = Map<int, V>;
    open spec fn view(&self) -> Map<int, V> { self.m@ }
}
/// The keys of a map, in ascending order.
pub uninterp spec fn sorted_keys<V>(m: Map<int, V>) -> Seq<int>;
pub open spec fn ascending(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// The values, by ascending key.
pub open spec fn from_map<V>(m: Map<int, V>, r: Seq<V>) -> bool {
    &&& ascending(sorted_keys(m))
    &&& forall|k: int| sorted_keys(m).contains(k) <==> #[trigger] m.dom().contains(k)
    &&& r.len() == sorted_keys(m).len()
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains(#[trigger] sorted_keys(m)[i]) && r[i] == m[sorted_keys(m)[i]]
}
pub struct IntoValues<V> { pub m: Ghost<Map<int, V>>, pub t: ::std::marker::PhantomData<V> }
impl<V> BTreeMap<u64, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<int, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: V, w: &mut World) -> (r: Option<V>)
        ensures *final(w) == *old(w), final(self)@ == old(self)@.insert(k as int, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64, w: &mut World) -> (r: Option<V>)
        ensures *final(w) == *old(w), final(self)@ == old(self)@.remove(*k as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u64) -> (r: bool)
        ensures r == self@.dom().contains(*k as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_values(self) -> (r: IntoValues<V>)
        ensures r.m == self.m
    { unimplemented!() }
}
impl<V> IntoValues<V> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<V>)
        ensures from_map(self.m@, r@), r@.len() < 0x80_0000_0000_0000
    { unimplemented!() }
}
impl<V> BTreeMap<u64, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&V>)
        ensures r is Some == self@.dom().contains(*k as int), r is Some ==> *r->0 == self@[*k as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.dom() =~= Set::<int>::empty())
    { unimplemented!() }
}
impl<V> IntoValues<V> {
    /// Of what is left of them after that, nothing is known but its length.
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: crate::shim::std::vec::IntoIter<V>)
        ensures exists|s: Seq<V>| #[trigger] from_map(self.m@, s) && r@ == (if n < s.len() { s.take(n as int) } else { s })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: crate::shim::std::vec::IntoIter<V>)
        ensures exists|s: Seq<V>| #[trigger] from_map(self.m@, s) && r@ == (if n < s.len() { s.skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
}
} // verus!
