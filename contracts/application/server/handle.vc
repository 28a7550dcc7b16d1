keep ConnectionMsg Handler
drop-fns Handler::continue_run
refcells
world-calls run_internal spawn
top {{{
use super::frame::{fv, fvs, MAX_DEPTH};
use crate::shim::World;
use crate::shim::Task_;
use crate::shim::local_sync;
use crate::shim::local_sync::mpsc::unbounded::{Tx, Rx};
use crate::shim::local_sync::oneshot;
}}}
bottom {{{
#[verifier::external_body]
pub fn reading_task_(conn: Rc<RefCell<ReadConnection>>, tx: Tx<Frame>) -> Task_<Result<(), crate::shim::anyhow::Error>>
    requires tx.put() == Seq::<Frame>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub fn accepting_task_(connection_r: ReadConnection, tx: Tx<Frame>, shutdown_rx: oneshot::Receiver<()>, shutdown_ok_tx: oneshot::Sender<Rc<RefCell<ReadConnection>>>) -> (r: Task_<Result<(), crate::shim::anyhow::Error>>)
    requires tx.put() == Seq::<Frame>::empty()
    ensures r.ev@ == (Ev::Reads { conn: connection_r.of(), chan: tx.id() })
{ unimplemented!() }
#[verifier::external_body]
pub fn answering_task_(connection: WriteConnection, rx: Rx<Frame>, ctx: Context, current_command: Option<Command>, shutdown_tx: oneshot::Sender<()>, shutdown_ok_rx: oneshot::Receiver<Rc<RefCell<ReadConnection>>>, shard: Rc<Shard<ConnectionMsg>>, w: &World) -> (r: Task_<Result<(), crate::shim::anyhow::Error>>)
    requires
        connection.held() == 0,
        ctx.unread(w),
        current_command is None,
    ensures r.ev@ == (Ev::Answers { conn: connection.of(), chan: rx.id(), who: ctx.asker() })
{ unimplemented!() }
/// Between the requests `qs` and what was put in the channel, `fed`: all of them up to
/// there, and all of them when it is over.
pub proof fn lemma_fed(s: Seq<u8>, closed: bool, done: Seq<FV>, all: (Seq<FV>, bool))
    requires all == (done + requests(s, closed, MAX_DEPTH as nat).0, requests(s, closed, MAX_DEPTH as nat).1)
    ensures match take(s, closed, MAX_DEPTH as nat) {
        Taken::Request(v, rest) => rest.len() < s.len() && done.push(v).is_prefix_of(all.0)
            && all == (done.push(v) + requests(rest, closed, MAX_DEPTH as nat).0, requests(rest, closed, MAX_DEPTH as nat).1),
        Taken::Clean => all == (done, true),
        Taken::Fault => all == (done, false),
    }
{
    let d = MAX_DEPTH as nat;
    match take(s, closed, d) {
        Taken::Request(v, rest) => {
            lemma_scan_bounds(s, 0, d);
            let (vs, end) = requests(rest, closed, d);
            assert(requests(s, closed, d) == (seq![v] + vs, end));
            assert(done + (seq![v] + vs) =~= done.push(v) + vs);
        },
        _ => { assert(done + Seq::<FV>::empty() =~= done); },
    }
}
}}}

lift reading_(conn, tx) -> r [C01 C09] {{{
    requires old(tx).put() == Seq::<Frame>::empty()
    ensures ({
        let (qs, clean) = requests(old(conn).pending(), !old(conn).broken(), MAX_DEPTH as nat);
        let fed = fvs(final(tx).put());
        &&& fed.is_prefix_of(qs)
        &&& r is Ok ==> (fed == qs && clean) || final(tx).alone()
        &&& r is Err ==> (fed == qs && !clean) || final(tx).alone()
    })
}}}
from Handler::run_internal async 1
sig fn reading_(conn: &mut super::connection::ReadConnection, tx: &mut Tx<Frame>) -> (r: Result<(), crate::shim::anyhow::Error>)
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
by-ref conn
by-ref tx
head {{{
    let ghost all = requests(conn.pending(), !conn.broken(), MAX_DEPTH as nat);
    proof {
        assert(fvs(tx.put()) =~= Seq::<FV>::empty());
        assert(Seq::<FV>::empty() + all.0 =~= all.0);
    }
}}}
loop 0 loop {{{
    invariant
        conn.broken() == old(conn).broken(),
        fvs(tx.put()).is_prefix_of(all.0),
        tx.alone() || ({
            let rest = requests(conn.pending(), !conn.broken(), MAX_DEPTH as nat);
            all == (fvs(tx.put()) + rest.0, rest.1)
        }),
    decreases conn.pending().len()
}}}
loop-head 0 {{{
    let ghost p0 = tx.put();
    proof {
        let rest = requests(conn.pending(), !conn.broken(), MAX_DEPTH as nat);
        lemma_fed(conn.pending(), !conn.broken(), fvs(tx.put()), (fvs(tx.put()) + rest.0, rest.1));
        assert forall|f: Frame| fvs(p0.push(f)) == fvs(p0).push(#[trigger] fv(f)) by { assert(fvs(p0.push(f)) =~= fvs(p0).push(fv(f))); }
    }
}}}

lift answering_(connection, rx, ctx, w) -> r [C09] {{{
    requires
        old(connection).held() == 0,
        ctx.unread(old(w)),
        current_command is None,
    ensures ({
        let qs = fvs(old(rx).ahead());
        &&& r is Ok ==> served(qs, ctx.asker(), old(w).evs(), final(w).evs(), old(connection).sent(), final(connection).sent())
        &&& r is Err ==> halted(qs, ctx.asker(), old(w).evs(), final(w).evs(), old(connection).sent(), final(connection).sent())
    })
}}}
from Handler::run_internal async 2
sig fn answering_(connection: &mut super::connection::WriteConnection, rx: &mut Rx<Frame>, ctx: Context, current_command: Option<Command>, shutdown_tx: oneshot::Sender<()>, shutdown_ok_rx: oneshot::Receiver<Rc<RefCell<ReadConnection>>>, shard: Rc<Shard<ConnectionMsg>>, w: &mut World) -> (r: Result<(), crate::shim::anyhow::Error>)
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
by-ref connection reunite
by-ref rx
world clone apply
head {{{
    let ghost qs = fvs(rx.ahead());
    let ghost mut n = 0int;
    proof { lemma_none(qs, ctx.asker(), w.evs(), connection.sent()); assert(qs.skip(0) =~= qs); }
}}}
loop 0 while {{{
    invariant
        0 <= n <= qs.len(),
        fvs(rx.ahead()) == qs.skip(n),
        connection.held() == 0,
        ctx.unread(w),
        served(qs.take(n), ctx.asker(), old(w).evs(), w.evs(), old(connection).sent(), connection.sent()),
    ensures n == qs.len(), qs.take(n) == qs
    decreases rx.ahead().len()
}}}
loop-head 0 {{{
    let ghost a0 = rx.ahead();
    let ghost lg = w.evs();
    let ghost st = connection.sent();
    proof {
        if a0.len() > 0 {
            assert(fvs(a0)[0] == fv(a0[0]));
            assert(qs[n] == fv(a0[0]));
            assert(fvs(a0.drop_first()) =~= fvs(a0).drop_first());
            assert(qs.skip(n).drop_first() =~= qs.skip(n + 1));
        }
    }
}}}
loop-tail 0 {{{
    proof {
        lemma_next(qs, n, ctx.asker(), old(w).evs(), lg, w.evs(), old(connection).sent(), st, connection.sent());
        n = n + 1;
    }
}}}

lift accepting_(connection_r, tx) -> r [C04] {{{
    requires tx.put() == Seq::<Frame>::empty()
}}}
from Handler::run_internal async 0
sig fn accepting_(connection_r: ReadConnection, tx: Tx<Frame>, shutdown_rx: oneshot::Receiver<()>, shutdown_ok_tx: oneshot::Sender<Rc<RefCell<ReadConnection>>>) -> (r: Result<(), crate::shim::anyhow::Error>)
task 1 {{{
reading_task_(conn, tx)
}}}

fn Handler::run(self, ctx) -> r +w [C09] {{{
    requires self.connection.held() == 0, ctx.unread(old(w))
    ensures paired(old(w).evs(), final(w).evs(), self.connection_r.of(), self.connection.of(), ctx.asker())
}}}
fn Handler::run_internal(self, ctx, current_command) -> r +w [C09] {{{
    requires self.connection.held() == 0, ctx.unread(old(w)), current_command is None
    ensures paired(old(w).evs(), final(w).evs(), self.connection_r.of(), self.connection.of(), ctx.asker())
}}}
task 0 {{{
accepting_task_(connection_r, tx, shutdown_rx, shutdown_ok_tx)
}}}
task 2 {{{
answering_task_(connection, rx, ctx, current_command, shutdown_tx, shutdown_ok_rx, shard, w)
}}}
