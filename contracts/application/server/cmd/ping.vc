keep Ping
defaults-from application/server/cmd/mod.rs

top {{{
use super::ob;
}}}
fn Ping::new(msg) -> r [C05] {{{
    ensures ob(r.msg) == ob(msg)
}}}
fn Ping::parse_frames(parse) -> r [C05] {{{
    ensures
        old(parse).rest().len() == 0 ==> r is Ok && r->Ok_0.msg is None,
        old(parse).rest().len() > 0 ==> match bytes_arg(old(parse).rest()[0]) {
            Some(b) => r is Ok && ob(r->Ok_0.msg) == Some(b),
            None => r is Err,
        },
        final(parse).read(old(parse)),
}}}

fn Ping::hash_key(self) -> r [C12] {{{
    ensures r is None
}}}

fn Ping::apply(self, dst, _ctx) -> r +w [C08 C09] {{{
    requires old(dst).held() == 0, _ctx.unread(old(w))
    ensures
        final(w).kept(old(w), _ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Ping(ob(self.msg)), _ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
