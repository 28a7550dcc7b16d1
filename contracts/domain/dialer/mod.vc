keep Slot RootDialer Dialer
clone-eq Slot

bottom {{{
impl Slot {
    pub closed spec fn lo(&self) -> int { self.0.start as int }
    pub closed spec fn hi(&self) -> int { self.0.end as int }
}
impl vstd::std_specs::convert::FromSpecImpl<Range<u16>> for Slot {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Range<u16>) -> Slot { Slot(v) }
}
impl RootDialer {
    /// How many threads there are.
    pub closed spec fn peers(&self) -> int { self.mesh.peers@ }
    pub closed spec fn ranges(&self) -> Seq<Slot> { self.inner_slots@ }
    pub closed spec fn whole(&self) -> Slot { self.global_slot }
}
impl Dialer {
    pub closed spec fn range(&self) -> Slot { self.local_slot }
    pub closed spec fn ranges(&self) -> Seq<Slot> { self.inner_slots@ }
    pub closed spec fn whole(&self) -> Slot { self.global_slot }
}
}}}
fn Slot as From<Range<u16>>::from(value) -> r [C13] {{{
    ensures r.lo() == value.start, r.hi() == value.end
}}}
fn Slot as Deref::deref(self) -> r [C13] {{{
    ensures r.start == self.lo(), r.end == self.hi()
}}}
fn RootDialer::new(mesh, storage) -> r [C13] {{{
    ensures
        r.whole() == storage.whole(),
        r.peers() == mesh.peers@,
        r.ranges().len() == storage.parts().len(),
        forall|i: int| 0 <= i < r.ranges().len() ==> #[trigger] r.ranges()[i] == storage.parts()[i].0,
}}}
fn RootDialer::part(self, part) -> r [C13] {{{
    requires 1 <= self.ranges().len() <= 16384, part < self.peers()
    ensures r is Ok, ({
        let d = r->Ok_0;
        &&& d.range() == self.ranges()[part as int % self.ranges().len() as int]
        &&& d.ranges() == self.ranges()
        &&& d.whole() == self.whole()
        &&& d.shard.of@ == part
    })
}}}
