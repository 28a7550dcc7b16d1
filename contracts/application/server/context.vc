keep Context
world-calls now recent get set replace Cell::new
clone-world Context {{{
    requires old(w).cells@.dom().contains(self.cell())
    ensures
        r.storage == self.storage, r.supervisor == self.supervisor, r.connection == self.connection,
        final(w).log == old(w).log, final(w).incoming == old(w).incoming, !old(w).cells@.dom().contains(r.cell()),
        final(w).cells@ == old(w).cells@.insert(r.cell(), old(w).cells@[self.cell()]),
}}}
impl-extra Context {{{
    pub closed spec fn cell(&self) -> int { self.now.id@ }
    /// Who is served.
    pub open spec fn asker(&self) -> Asker {
        Asker { me: self.connection.who(), db: self.storage.db(), map: self.supervisor.map() }
    }
    /// The next time it is asked for the time, it will look at the clock.
    pub open spec fn unread(&self, w: &World) -> bool {
        w.cells@.dom().contains(self.cell()) && !w.cells@[self.cell()]
    }
}}}
top {{{
use crate::shim::World;
}}}
fn Context::new(storage, supervisor, meta_conn) -> r +w [C07 C11] {{{
    ensures
        r.storage == storage, r.supervisor == supervisor, r.connection == meta_conn,
        r.unread(final(w)),
        final(w).log == old(w).log, final(w).incoming == old(w).incoming,
}}}
fn Context::is_in_slot(self, hash) -> r [C13] {{{
    ensures r == (self.storage.range().lo() <= hash < self.storage.range().hi())
}}}
fn Context::slot_nb(self, hash) -> r {{{
    requires false
}}}
fn Context::now(self) -> r +w [C07] {{{
    requires self.unread(old(w))
    ensures
        r.t < 0x8000_0000_0000_0000,
        final(w).evs() == old(w).evs().push(Ev::Clock { t: r.t as int }),
        final(w).cells@ == old(w).cells@.insert(self.cell(), true),
}}}
