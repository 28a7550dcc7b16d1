//! What the code shares with the other tasks and threads. Each step on it is an
//! event of the log of the task; between two of them anything may happen to what
//! is shared, so nothing is said about what a step finds.
use vstd::prelude::*;
use crate::spec::world::*;
verus! {

pub struct World {
    /// the steps of this task
    pub log: Ghost<Seq<Ev>>,
    /// what the cells of this thread hold
    pub cells: Ghost<Map<int, bool>>,
    /// the connections this task has accepted
    pub incoming: Ghost<Seq<Incoming>>,
}
impl World {
    pub open spec fn evs(&self) -> Seq<Ev> { self.log@ }
    /// The cells of before hold the same, but for `c`.
    pub open spec fn kept(&self, o: &World, c: int) -> bool {
        forall|x: int| #![trigger o.cells@.dom().contains(x)] #![trigger self.cells@.dom().contains(x)] x != c && o.cells@.dom().contains(x) ==> self.cells@.dom().contains(x) && self.cells@[x] == o.cells@[x]
    }
    /// One more step.
    pub open spec fn did(&self, o: &World, e: Ev) -> bool {
        self.evs() == o.evs().push(e) && self.cells == o.cells && self.incoming == o.incoming
    }
}
} // verus!
