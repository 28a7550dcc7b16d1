keep Hello
defaults-from application/server/cmd/mod.rs

fn Hello::new() -> r [C05] {{{
}}}
fn Hello::parse_frames(parse) -> r [C05] {{{
    ensures r is Ok <==> old(parse).rest().len() == 0, r is Ok ==> final(parse).rest().len() == 0
}}}

fn Hello::hash_key(self) -> r [C12] {{{
    ensures r is None
}}}

fn Hello::apply(self, dst, ctx) -> r +w [C08 C09 C10] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Hello, ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
head {{{
    broadcast use {crate::application::server::frame::group_fv, crate::application::server::frame::group_keys};
}}}
