keep ServerConfig ServerHandle
clone-eq ServerConfig
mods connection context frame handle cmd server_thread supervisor
drop-use derive_builder
drop-fns ServerHandle::join
world-calls initialize
top {{{
use crate::shim::World;
use crate::shim::std;
use crate::shim::sharded_thread;
}}}
fn ServerConfig::initialize(self) -> r +w [C06 C10 C13] {{{
    ensures started(old(w).evs(), final(w).evs())
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
local dialer = let~RootDialer::new
local storage = let~Storage::new
local supervisor = let~Supervisor::new
head {{{
    let ghost l0 = w.evs();
}}}
loop 0 for-range {{{
    invariant
        __r0.step == 1, 0 <= __r0.cur <= __r0.end, 1 <= __r0.end <= 65536, __r0.end <= dialer.peers(),
        w.evs() =~= l0 + starts(w.evs().len() - l0.len(), storage.parts()[0].1.db(), supervisor.map(), supervisor.counter()),
    ensures __r0.cur == __r0.end
    decreases __r0.end - __r0.cur
}}}
loop-post 0 {{{
    proof {
        assert(w.evs() =~= l0 + starts(w.evs().len() - l0.len(), storage.parts()[0].1.db(), supervisor.map(), supervisor.counter()));
        assert(started(l0, w.evs()));
    }
}}}
