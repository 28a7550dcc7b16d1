world-calls apply
keep Command
defaults-from application/server/cmd/mod.rs
mods parse acl client get hello ping set unknown

top {{{
use crate::application::server::frame::{fv, fvs};
}}}
bottom {{{
/// The request a command is for.
pub open spec fn rq(c: Command) -> Rq {
    match c {
        Command::Acl(x) => x.rq(),
        Command::Client(x) => x.rq(),
        Command::Hello(x) => Rq::Hello,
        Command::Ping(x) => Rq::Ping(ob(x.msg)),
        Command::Set(x) => Rq::Set(x.key@, x.value@, set::ttl(x.expire)),
        Command::Get(x) => Rq::Get(x.key@),
        Command::Unknown(x) => Rq::Unknown(x.command_name@),
    }
}
/// The bytes that may be there.
pub open spec fn ob(b: Option<crate::shim::bytes::Bytes>) -> Option<Seq<u8>> {
    match b { Some(x) => Some(x@), None => None }
}
}}}

fn Command::from_frame(frame) -> r [C05] {{{
    ensures match command(fv(frame)) {
        Some(c) => r is Ok && rq(r->Ok_0) == c,
        None => r is Err,
    }
}}}
head {{{
    proof { lemma_words(); }
}}}

fn Command::hash_key(self) -> r [C12] {{{
    ensures match rq(*self) {
        Rq::Get(k) => r is Some && r->Some_0 as int == slot_of(k),
        Rq::Set(k, _, _) => r is Some && r->Some_0 as int == slot_of(k),
        _ => r is None,
    }
}}}

fn Command::apply(self, dst, ctx) -> r +w [C06 C07 C08 C09 C11] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(rq(self), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
