keep Supervisor MetadataConnection MetadataConnectionKind
clone-eq Supervisor
guards
world-calls fetch_add insert load store read write name set_name format_conn
top {{{
use crate::shim::World;
use crate::shim::scc::Kept_;
use crate::shim::scc::hash_map::visits;
}}}
bottom {{{
#[verifier::external]
impl ::std::fmt::Debug for MetadataConnection { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { unimplemented!() } }
impl MetadataConnection {
    /// Its name.
    pub closed spec fn lock(&self) -> int { self.name.id@ }
    /// Whether it has ended.
    pub closed spec fn flag(&self) -> int { self.stopped.id@ }
    pub closed spec fn unnamed(&self) -> bool { self.name.start@ is None }
    pub closed spec fn running(&self) -> bool { !self.stopped.start@ }
    pub open spec fn normal(&self) -> bool { self.kind is Normal }
}
impl MetadataConnection {
    /// Its description, under a name.
    pub open spec fn description(&self, name: Option<Seq<u8>>) -> Seq<u8> {
        describe(self.id as int, self.addr.text(), self.laddr.text(), self.fd.shown(), name)
    }
}
impl MetadataConnection {
    pub open spec fn who(&self) -> Who {
        Who { id: self.id as int, lock: self.lock(), flag: self.flag(), addr: self.addr.text(), laddr: self.laddr.text(), fd: self.fd.shown(), normal: self.normal() }
    }
}
impl crate::shim::scc::Kept_ for Arc<MetadataConnection> {
    open spec fn what(&self) -> Who { self.who() }
}
impl Supervisor {
    pub closed spec fn counter(&self) -> int { self.current_id.id@ }
    pub closed spec fn first(&self) -> int { self.current_id.start@ }
    pub closed spec fn map(&self) -> int { self.current_connections.id@ }
}
pub open spec fn whos(s: Seq<Arc<MetadataConnection>>) -> Seq<Who> { s.map_values(|m: Arc<MetadataConnection>| m.who()) }
/// `m` holds those which a visit found that they had not ended.
pub open spec fn holds_live(m: Map<int, Arc<MetadataConnection>>, seen: Seq<Who>, flags: Seq<bool>) -> bool {
    &&& forall|k: int| #[trigger] m.dom().contains(k) ==> exists|j: int| #[trigger] live(seen, flags, j) && seen[j].id == k && m[k].who() == seen[j]
    &&& forall|j: int| #[trigger] live(seen, flags, j) ==> m.dom().contains(seen[j].id)
}
proof fn lemma_listed(seen: Seq<Who>, flags: Seq<bool>, m: Map<int, Arc<MetadataConnection>>)
    requires
        flags.len() == seen.len(),
        holds_live(m, seen, flags),
    ensures
        forall|r: Seq<Arc<MetadataConnection>>| #[trigger] crate::shim::std::collections::from_map(m, r) ==> listed(seen, flags, whos(r))
{
    assert forall|r: Seq<Arc<MetadataConnection>>| #[trigger] crate::shim::std::collections::from_map(m, r) implies listed(seen, flags, whos(r)) by {
        let ks = crate::shim::std::collections::sorted_keys(m);
        let u = whos(r);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).id == ks[i] by {
            assert(m.dom().contains(ks[i]));
        }
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] visited(seen, flags, u[i]) by {
            assert(m.dom().contains(ks[i]));
            let j = choose|j: int| #[trigger] live(seen, flags, j) && seen[j].id == ks[i] && m[ks[i]].who() == seen[j];
            assert(live(seen, flags, j) && u[i] == seen[j]);
        }
        assert forall|j: int| #[trigger] live(seen, flags, j) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).id == seen[j].id by {
            assert(m.dom().contains(seen[j].id));
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == seen[j].id;
            assert(u[i].id == seen[j].id);
        }
    }
}
}}}
fn MetadataConnection::stop(self) -> r +w [C04 C10] {{{
    ensures final(w).did(old(w), Ev::Raise { flag: self.flag() })
}}}
fn MetadataConnection::set_name(self, name) -> r +w [C11] {{{
    ensures final(w).did(old(w), Ev::SetName { lock: self.lock(), name: if name@.len() == 0 { None } else { Some(name@) } })
}}}
fn MetadataConnection::name(self) -> r +w [C08 C11] {{{
    ensures final(w).did(old(w), Ev::Name { lock: self.lock(), name: match r { Some(n) => Some(n@), None => None } })
}}}
fn MetadataConnection::format_conn(self) -> r +w [C08 C11] {{{
    ensures
        final(w).did(old(w), Ev::Name { lock: self.lock(), name: last_name(final(w).evs()) }),
        r@ == self.description(last_name(final(w).evs())),
}}}
head {{{
    broadcast use crate::shim::group_cat;
}}}
fn MetadataConnection::id(self) -> r [C08 C10] {{{
    ensures r == self.id
}}}

type-attr MetadataConnectionKind #[derive(PartialEq, Eq, Structural)]
fn Supervisor::new(init_connection) -> r [C10] {{{
    ensures r.first() == init_connection
}}}
fn Supervisor::assign_new_connection(self, addr, laddr, fd) -> r +w [C10 C11] {{{
    ensures
        final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
        final(w).evs() == old(w).evs()
            .push(Ev::Ticket { counter: self.counter(), n: r.id as int })
            .push(Ev::Enter { map: self.map(), what: r.who() }),
        r.addr == addr, r.laddr == laddr, r.fd == fd, r.normal(), r.unnamed(), r.running(),
}}}
fn Supervisor::get_normal_connection(self) -> r +w [C10] {{{
    ensures
        r@.len() < 0x80_0000_0000_0000,
        final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
        exists|seen: Seq<Who>, flags: Seq<bool>| #[trigger] listed(seen, flags, whos(r@))
            && final(w).evs() == old(w).evs().push(Ev::Scan { map: self.map(), seen }) + walk(seen, flags),
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
local result = let~BTreeMap::new()
head {{{
    let ghost mut flags = Seq::<bool>::empty();
    let ghost l0 = w.evs();
    let ghost mut seen = Seq::<Who>::empty();
}}}
loop 0 scan {{{
    invariant
        0 <= __it0.i@ <= __it0.seen@.len(), flags.len() == __it0.i@,
        w.cells == old(w).cells, w.incoming == old(w).incoming,
        forall|j: int| 0 <= j < __it0.seen@.len() ==> (#[trigger] __it0.seen@[j]).1.what().id == __it0.seen@[j].0,
        w.evs() =~= l0.push(Ev::Scan { map: self.map(), seen: visits(__it0.seen@) }) + walk(visits(__it0.seen@), flags),
        holds_live(result@, visits(__it0.seen@), flags),
    ensures __it0.i@ == __it0.seen@.len(), visits(__it0.seen@) == seen
    decreases __it0.seen@.len() - __it0.i@
}}}
loop-head 0 {{{
    let ghost f0 = flags;
    proof { seen = visits(__it0.seen@); }
    let ghost m0 = result@;
}}}
loop-tail 0 {{{
    proof {
        flags = flags.push(match w.evs().last() { Ev::Flag { flag, v } => v, _ => false });
        assert forall|j: int| #[trigger] live(seen, flags, j) && j < f0.len() implies live(seen, f0, j) by {}
        assert forall|j: int| #[trigger] live(seen, f0, j) implies live(seen, flags, j) by {}
        let j = f0.len() as int;
        assert forall|k: int| #[trigger] result@.dom().contains(k) implies exists|j: int| #[trigger] live(seen, flags, j) && seen[j].id == k && result@[k].who() == seen[j] by {
            if live(seen, flags, j) && k == seen[j].id && result@[k].who() == seen[j] {
            } else {
                assert(m0.dom().contains(k));
                let j0 = choose|j0: int| #[trigger] live(seen, f0, j0) && seen[j0].id == k && m0[k].who() == seen[j0];
                assert(live(seen, flags, j0));
            }
        }
    }
}}}
tail {{{
    proof { lemma_listed(seen, flags, result@); }
}}}
