world-calls format_conn
keep ClientInfo

fn ClientInfo::new() -> r [C05] {{{
}}}
fn ClientInfo::parse_frames(parse) -> r [C05] {{{
    ensures r is Ok <==> old(parse).rest().len() == 0, r is Ok ==> final(parse).rest().len() == 0
}}}

fn ClientInfo::apply(self, dst, ctx) -> r +w [C08 C09 C11] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Info, ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
