//! `scc`: a map shared by threads. The entry of a key is locked for as long as
//! it is held, so what is done through it is one step.
use vstd::prelude::*;
use crate::shim::World;
use crate::spec::world::*;
pub use self::hash_map::HashMap;
verus! {
/// What an entry of the key-value store stands for.
pub trait Stored_ { spec fn item(&self) -> Item; }
/// What may be in a map of connections.
pub trait Kept_ { spec fn what(&self) -> Who; }
}
pub mod ebr {
    use vstd::prelude::*;
    verus! {
    pub struct Guard { }
    impl Guard { pub fn new() -> Guard { Guard { } } }
    }
}
pub mod hash_map {
use vstd::prelude::*;
use crate::shim::World;
use crate::spec::world::*;
use super::{Stored_, Kept_};
verus! {
pub struct HashMap<K, V, S = ()> { pub id: Ghost<int>, pub t: ::std::marker::PhantomData<(K, V, S)> }
impl<K, V, S> HashMap<K, V, S> {
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, s: S) -> HashMap<K, V, S>
        requires n <= 0x100_0000
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_hasher(s: S) -> HashMap<K, V, S> { unimplemented!() }
}
impl<K, V> HashMap<K, V, ()> {
    #[verifier::external_body]
    pub fn new() -> HashMap<K, V, ()> { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> HashMap<K, V, ()>
        requires n <= 0x100_0000
    { unimplemented!() }
}
impl<K, V, S> crate::shim::Default_ for HashMap<K, V, S> {
    open spec fn is_default_(&self) -> bool { true }
    #[verifier::external_body]
    fn default_() -> Self { unimplemented!() }
}

/// The entry of a key, locked. `at`: the step it is, in the log.
pub struct OccupiedEntry<V> { pub db: Ghost<int>, pub key: Ghost<Seq<u8>>, pub at: Ghost<int>, pub before: Ghost<Option<Item>>, pub v: Ghost<V> }
pub struct VacantEntry<V> { pub db: Ghost<int>, pub key: Ghost<Seq<u8>>, pub at: Ghost<int>, pub t: ::std::marker::PhantomData<V> }
pub enum Entry<V> { Occupied(OccupiedEntry<V>), Vacant(VacantEntry<V>) }

impl<V: Stored_> OccupiedEntry<V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V)
        ensures *r == self.v@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V, w: &mut World) -> (r: V)
        ensures
            final(self).db == old(self).db, final(self).key == old(self).key, final(self).at == old(self).at, final(self).before == old(self).before,
            final(self).v@ == v, r == old(self).v@,
            final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
            final(w).evs() == old(w).evs().update(old(self).at@, Ev::Tx { db: old(self).db@, key: old(self).key@, before: old(self).before@, after: Some(v.item()) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self, w: &mut World) -> (r: V)
        ensures
            r == self.v@,
            final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
            final(w).evs() == old(w).evs().update(self.at@, Ev::Tx { db: self.db@, key: self.key@, before: self.before@, after: None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(self, w: &mut World) -> (r: (Vec<u8>, V))
        ensures
            r.0@ == self.key@, r.1 == self.v@,
            final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
            final(w).evs() == old(w).evs().update(self.at@, Ev::Tx { db: self.db@, key: self.key@, before: self.before@, after: None }),
    { unimplemented!() }
}
impl<V: Stored_> OccupiedEntry<V> {
    #[verifier::external_body]
    pub fn key(&self) -> (r: &Vec<u8>)
        ensures r@ == self.key@
    { unimplemented!() }
}
impl<V: Stored_> VacantEntry<V> {
    #[verifier::external_body]
    pub fn key(&self) -> (r: &Vec<u8>)
        ensures r@ == self.key@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_entry(self, v: V, w: &mut World) -> (r: OccupiedEntry<V>)
        ensures
            r.db == self.db, r.key == self.key, r.at == self.at, r.before@ is None, r.v@ == v,
            final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
            final(w).evs() == old(w).evs().update(self.at@, Ev::Tx { db: self.db@, key: self.key@, before: None, after: Some(v.item()) }),
    { unimplemented!() }
}

impl<V: Stored_, S> HashMap<Vec<u8>, V, S> {
    #[verifier::external_body]
    pub fn entry(&self, key: Vec<u8>, w: &mut World) -> (r: Entry<V>)
        ensures
            match r {
                Entry::Occupied(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len() && o.before@ == Some(o.v@.item())
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: o.before@, after: o.before@ }),
                Entry::Vacant(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len()
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { unimplemented!() }
    pub fn entry_async(&self, key: Vec<u8>, w: &mut World) -> (r: Entry<V>)
        ensures
            match r {
                Entry::Occupied(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len() && o.before@ == Some(o.v@.item())
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: o.before@, after: o.before@ }),
                Entry::Vacant(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len()
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { self.entry(key, w) }
    /// The entry, when there is one.
    #[verifier::external_body]
    pub fn get(&self, key: &Vec<u8>, w: &mut World) -> (r: Option<OccupiedEntry<V>>)
        ensures
            match r {
                Some(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len() && o.before@ == Some(o.v@.item())
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: o.before@, after: o.before@ }),
                None => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { unimplemented!() }
    pub fn get_async(&self, key: &Vec<u8>, w: &mut World) -> (r: Option<OccupiedEntry<V>>)
        ensures
            match r {
                Some(o) => o.db == self.id && o.key@ == key@ && o.at@ == old(w).evs().len() && o.before@ == Some(o.v@.item())
                    && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: o.before@, after: o.before@ }),
                None => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { self.get(key, w) }
    /// Adds an entry, unless there is one.
    #[verifier::external_body]
    pub fn insert(&self, key: Vec<u8>, v: V, w: &mut World) -> (r: Result<(), (Vec<u8>, V)>)
        ensures
            match r {
                Ok(_) => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: Some(v.item()) }),
                Err(e) => e.0@ == key@ && e.1 == v && exists|i: Item| #[trigger] final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: Some(i), after: Some(i) }),
            }
    { unimplemented!() }
    pub fn insert_async(&self, key: Vec<u8>, v: V, w: &mut World) -> (r: Result<(), (Vec<u8>, V)>)
        ensures
            match r {
                Ok(_) => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: Some(v.item()) }),
                Err(e) => e.0@ == key@ && e.1 == v && exists|i: Item| #[trigger] final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: Some(i), after: Some(i) }),
            }
    { self.insert(key, v, w) }
    /// Adds an entry, or replaces it.
    #[verifier::external_body]
    pub fn upsert(&self, key: Vec<u8>, v: V, w: &mut World) -> (r: Option<V>)
        ensures
            match r {
                Some(o) => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: Some(o.item()), after: Some(v.item()) }),
                None => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: Some(v.item()) }),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&self, key: &Vec<u8>, w: &mut World) -> (r: Option<(Vec<u8>, V)>)
        ensures
            match r {
                Some(o) => o.0@ == key@ && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: Some(o.1.item()), after: None }),
                None => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { unimplemented!() }
    pub fn remove_async(&self, key: &Vec<u8>, w: &mut World) -> (r: Option<(Vec<u8>, V)>)
        ensures
            match r {
                Some(o) => o.0@ == key@ && final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: Some(o.1.item()), after: None }),
                None => final(w).did(old(w), Ev::Tx { db: self.id@, key: key@, before: None, after: None }),
            }
    { self.remove(key, w) }
}
/// A map of connections. What is kept under an id is a connection with that id.
impl<V: Kept_, S> HashMap<u64, V, S> {
    /// Adds an entry, unless there is one; there is none when the id was just
    /// drawn, as nobody else ever gets it (`theorem_enter`).
    #[verifier::external_body]
    pub fn insert(&self, id: u64, v: V, w: &mut World) -> (r: Result<(), (u64, V)>)
        requires v.what().id == id
        ensures
            drawn(old(w).evs(), id as int) ==> r is Ok,
            r is Ok ==> final(w).did(old(w), Ev::Enter { map: self.id@, what: v.what() }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
    /// Goes through every entry that is there all along, once or several times,
    /// and through some of the others.
    #[verifier::external_body]
    pub fn __scan<'a>(&'a self, w: &mut World) -> (r: Scan_<'a, V>)
        ensures
            r.i@ == 0,
            forall|j: int| 0 <= j < r.seen@.len() ==> (#[trigger] r.seen@[j]).1.what().id == r.seen@[j].0,
            final(w).did(old(w), Ev::Scan { map: self.id@, seen: visits(r.seen@) }),
    { unimplemented!() }
}
pub open spec fn visits<V: Kept_>(s: Seq<(u64, V)>) -> Seq<Who> { s.map_values(|x: (u64, V)| x.1.what()) }
pub struct Scan_<'a, V> { pub seen: Ghost<Seq<(u64, V)>>, pub i: Ghost<int>, pub t: ::std::marker::PhantomData<&'a V> }
impl<'a, V> Scan_<'a, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a u64, &'a V)>)
        ensures
            final(self).seen == old(self).seen,
            old(self).i@ < old(self).seen@.len() ==> r is Some
                && *(r->Some_0).0 == old(self).seen@[old(self).i@].0 && *(r->Some_0).1 == old(self).seen@[old(self).i@].1
                && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).seen@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
} // verus!
}
