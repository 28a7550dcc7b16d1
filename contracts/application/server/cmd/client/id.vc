keep ClientID

fn ClientID::new() -> r [C05] {{{
}}}
fn ClientID::parse_frames(parse) -> r [C05] {{{
    ensures
        r is Ok ==> final(parse).rest() == old(parse).rest() || final(parse).rest().len() == 0 && old(parse).rest().len() == 0,
        r is Err ==> old(parse).rest().len() > 0,
}}}

fn ClientID::apply(self, dst, ctx) -> r +w [C08 C09 C10] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Id, ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
