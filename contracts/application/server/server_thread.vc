keep ServerMonoThreadedHandle
world-calls block_on accept assign_new_connection Context::new stop run spawn
top {{{
pub struct Driver;
use crate::shim::World;
use crate::shim::Task_;
use crate::shim::monoio;
use crate::shim::monoio::net::TcpStream;
use crate::shim::std::sync::Arc;
use crate::application::server::handle::ConnectionMsg;
use crate::application::server::supervisor::MetadataConnection;
use crate::shim::sharded_thread::shard::Shard;
}}}
bottom {{{
/// The thread, and what it runs: the server, with the data it was given.
#[verifier::external_body]
pub fn thread_task_(h: ServerMonoThreadedHandle) -> (r: Task_<()>)
    ensures r.ev@ == (Ev::Starts { db: h.storage.db(), map: h.supervisor.map(), counter: h.supervisor.counter() })
{ unimplemented!() }
#[verifier::external_body]
pub fn listening_task_(h: ServerMonoThreadedHandle) -> (r: Task_<Result<(), crate::shim::anyhow::Error>>)
    ensures r.ev@ == (Ev::Starts { db: h.storage.db(), map: h.supervisor.map(), counter: h.supervisor.counter() })
{ unimplemented!() }
/// A connection is served for the one it was entered as.
#[verifier::external_body]
pub fn serving_task_(conn: TcpStream, shard: Rc<Shard<ConnectionMsg>>, ctx: Context, meta_conn: Arc<MetadataConnection>, w: &World) -> (r: Task_<()>)
    requires ctx.unread(w), ctx.asker().me == meta_conn.who()
    ensures r.ev@ == (Ev::Serves { conn: conn.conn(), who: ctx.asker() })
{ unimplemented!() }
}}}

fn ServerMonoThreadedHandle::new(config, dialer, local_supervisor, cpu, storage) -> r [C06 C10 C13] {{{
    requires
        storage.wf(),
        dialer.ranges().len() == storage.parts().len(),
        cpu < 65536, cpu < dialer.peers(),
    ensures
        r.config == config,
        r.supervisor == *local_supervisor,
        r.storage == storage.parts()[cpu as int % storage.parts().len() as int].1,
        r.dial.range() == dialer.ranges()[cpu as int % storage.parts().len() as int],
        r.cpu == cpu,
}}}
fn ServerMonoThreadedHandle::initialize(self) -> r +w [C06 C10] {{{
    ensures final(w).did(old(w), Ev::Starts { db: self.storage.db(), map: self.supervisor.map(), counter: self.supervisor.counter() })
}}}
thread 0 {{{
thread_task_(self)
}}}

lift threading_(self, w) -> r [C06 C10] {{{
    ensures final(w).did(old(w), Ev::Starts { db: self.storage.db(), map: self.supervisor.map(), counter: self.supervisor.counter() })
}}}
from ServerMonoThreadedHandle::initialize closure 0
sig fn threading_(self, w: &mut World)
task 0 {{{
listening_task_(self)
}}}

lift serving_(conn, shard, ctx, meta_conn, w) -> r [C04 C09 C10] {{{
    requires ctx.unread(old(w)), ctx.asker().me == meta_conn.who()
    ensures ended(old(w).evs(), final(w).evs(), conn.conn(), ctx.asker())
}}}
from ServerMonoThreadedHandle::initialize async 1
sig fn serving_(conn: TcpStream, shard: Rc<Shard<ConnectionMsg>>, ctx: Context, meta_conn: Arc<MetadataConnection>, w: &mut World)

lift listening_(self, w) -> r [C04 C06 C10 C11] {{{
    ensures r is Err, final(w).evs() == old(w).evs(), final(w).incoming == old(w).incoming
}}}
from ServerMonoThreadedHandle::initialize async 0
sig fn listening_(self, w: &mut World) -> (r: Result<(), crate::shim::anyhow::Error>)
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]
task 1 {{{
serving_task_(conn, shard, ctx, meta_conn, w)
}}}
head {{{
    let ghost l0 = w.evs();
    let ghost c0 = w.incoming@.len() as int;
}}}
loop 0 loop {{{
    invariant
        accepted(l0, w.evs(), self.storage.db(), self.supervisor.map(), self.supervisor.counter()),
        0 <= c0 <= w.incoming@.len(), all_taken_up(w.evs(), w.incoming@, c0),
}}}
loop-head 0 {{{
    let ghost lb = w.evs();
    let ghost cb = w.incoming@;
}}}
loop-tail 0 {{{
    proof {
        assert(lb.is_prefix_of(w.evs()));
        lemma_taken_up(lb, w.evs(), cb, w.incoming@, c0);
        lemma_accept(l0, lb, w.evs(), self.storage.db(), self.supervisor.map(), self.supervisor.counter());
    }
}}}
