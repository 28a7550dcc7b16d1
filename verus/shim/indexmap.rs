//! `indexmap`
use vstd::prelude::*;
verus! {
pub struct IndexMap<K, V> { pub e: ::std::vec::Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> {
    type V = Seq<(K, V)>;
    open spec fn view(&self) -> Seq<(K, V)> { self.e@ }
}
/// `Eq` of the keys.
pub uninterp spec fn key_eq<K>(a: K, b: K) -> bool;

/// The entries after an insertion: the value of the equal key is replaced, a new
/// key goes last.
pub open spec fn put<K, V>(m: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)>
    decreases m.len()
{
    if m.len() == 0 { seq![(k, v)] }
    else if key_eq(m[0].0, k) { seq![(m[0].0, v)] + m.drop_first() }
    else { seq![m[0]] + put(m.drop_first(), k, v) }
}

/// The entries after insertions, one after the other.
pub open spec fn puts<K, V>(s: Seq<(K, V)>) -> Seq<(K, V)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { put(puts(s.drop_last()), s.last().0, s.last().1) }
}

impl<K, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self)
        ensures r@ == puts(a@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<(K, V)>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        requires n < 0x80_0000_0000_0000
        ensures r@ == Seq::<(K, V)>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == put(old(self)@, k, v)
    { unimplemented!() }
    pub fn iter_<'a>(&'a self) -> (r: MapIter<'a, K, V>)
        ensures r.m == self, r.i == 0
    { MapIter { m: self, i: 0 } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
}
/// Iterates over the entries, in order.
pub struct MapIter<'a, K, V> { pub m: &'a IndexMap<K, V>, pub i: usize }
impl<'a, K, V> MapIter<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            final(self).m == old(self).m,
            old(self).i < old(self).m@.len() ==> r is Some
                && *(r->Some_0).0 == old(self).m@[old(self).i as int].0
                && *(r->Some_0).1 == old(self).m@[old(self).i as int].1
                && final(self).i == old(self).i + 1,
            old(self).i >= old(self).m@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
impl<'a, K, V> super::iter::Iter_ for &'a IndexMap<K, V> {
    type It = MapIter<'a, K, V>;
    fn __iter(self) -> (r: MapIter<'a, K, V>)
        ensures r.m == self, r.i == 0
    { MapIter { m: self, i: 0 } }
}
impl<'a, K, V> super::iter::Iter_ for MapIter<'a, K, V> {
    type It = MapIter<'a, K, V>;
    fn __iter(self) -> (r: MapIter<'a, K, V>)
        ensures r == self
    { self }
}
} // verus!
