keep StorageValue StorageSegment SetOptions Storage
clone-eq StorageSegment Storage

bottom {{{
proof fn lemma_pow20()
    ensures crate::shim::power(2, 20) == 0x100000
{ assert(crate::shim::power(2, 20) == 0x100000) by (compute); }
impl crate::shim::scc::Stored_ for StorageValue {
    open spec fn item(&self) -> Item {
        Item { bytes: self.val@, until: match self.expired { Some(i) => Some(i.t as int), None => None } }
    }
}
impl StorageSegment {
    /// Which map it is.
    pub closed spec fn db(&self) -> int { self.db.id@ }
    pub closed spec fn range(&self) -> Slot { self.slot }
}
impl Storage {
    pub closed spec fn parts(&self) -> Seq<(Slot, StorageSegment)> { self.internal_vec@ }
    pub closed spec fn whole(&self) -> Slot { self.global_slot }
    /// The ranges are those of `n` parts.
    pub open spec fn wf(&self) -> bool {
        let n = self.parts().len() as int;
        &&& 1 <= n <= 16384
        &&& forall|i: int| 0 <= i < n ==> #[trigger] is_part(self.parts()[i], n, i)
    }
}
pub open spec fn is_part(p: (Slot, StorageSegment), n: int, i: int) -> bool {
    p.0.lo() == part_lo(n, i) && p.0.hi() == part_hi(n, i) && p.1.range() == p.0
}
}}}
world-calls entry entry_async get_w_ insert insert_entry insert_async upsert remove remove_async remove_entry

fn StorageSegment::new(slot) -> r [C13] {{{
    ensures r.range() == slot
}}}
head {{{
    proof { lemma_pow20(); }
}}}
loop 0 for-range {{{
    invariant __r0.step == 1, __r0.cur <= __r0.end || __r0.cur == 0
    decreases __r0.end - __r0.cur
}}}
fn StorageSegment::is_in_slot(self, i) -> r [C13] {{{
    ensures r == (self.range().lo() <= i < self.range().hi())
}}}
fn StorageSegment::set_async(self, key, val, opt) -> r +w [C06 C07] {{{
    ensures
        r is Ok,
        final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
        final(w).evs() == old(w).evs().push(final(w).evs().last()),
        match final(w).evs().last() {
            Ev::Tx { db, key: k, before, after } => db == self.db() && k == key@
                && after == Some(Item { bytes: val@, until: match opt.expired { Some(i) => Some(i.t as int), None => None } }),
            _ => false,
        },
}}}
fn StorageSegment::get_async(self, key, now) -> r +w [C06 C07] {{{
    ensures
        final(w).cells == old(w).cells, final(w).incoming == old(w).incoming,
        final(w).evs() == old(w).evs().push(final(w).evs().last()),
        match final(w).evs().last() {
            Ev::Tx { db, key: k, before, after } => db == self.db() && k == key@ && found(before, after, now.t as int, match r { Some(b) => Some(b@), None => None }),
            _ => false,
        },
}}}
fn Storage::new(nb_slot, slot) -> r [C13] {{{
    requires 1 <= nb_slot <= 16384
    ensures r.wf(), r.parts().len() == nb_slot, r.whole() == slot
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
local slots = let~Vec::new()
loop 0 for-range {{{
    invariant
        __r0.end == nb_slot, __r0.step == 1, 0 <= __r0.cur <= nb_slot,
        slots@.len() == __r0.cur,
        forall|i: int| 0 <= i < slots@.len() ==> #[trigger] is_part(slots@[i], nb_slot as int, i),
    ensures __r0.cur == nb_slot
    decreases nb_slot - __r0.cur
}}}
loop-head 0 {{{
    proof { if __r0.cur < nb_slot { lemma_part(nb_slot as int, __r0.cur as int); } }
}}}
fn Storage::slots(self) -> r [C13] {{{
    ensures r@.len() == self.parts().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.parts()[i].0
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 collect {{{
    invariant
        __it0.s@ == self.parts(), 0 <= __it0.i <= self.parts().len(),
        __out0@.len() == __it0.i,
        forall|i: int| 0 <= i < __out0@.len() ==> #[trigger] __out0@[i] == self.parts()[i].0,
    ensures __it0.i == self.parts().len()
    decreases self.parts().len() - __it0.i
}}}
fn Storage::global_slot(self) -> r [C13] {{{
    ensures *r == self.whole()
}}}
fn Storage::part(self, part) -> r [C13] {{{
    requires self.wf()
    ensures r == self.parts()[part as int % self.parts().len() as int]
}}}
