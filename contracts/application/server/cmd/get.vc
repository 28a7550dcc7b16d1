world-calls get_async now
keep Get
defaults-from application/server/cmd/mod.rs

fn Get::parse_frames(parse) -> r [C05] {{{
    ensures
        final(parse).read(old(parse)),
        r is Ok <==> old(parse).rest().len() > 0 && text_arg(old(parse).rest()[0]) is Some,
        r is Ok ==> Some(r->Ok_0.key@) == text_arg(old(parse).rest()[0]),
}}}

fn Get::hash_key(self) -> r [C12] {{{
    ensures r is Some, r->Some_0 as int == slot_of(self.key@)
}}}

fn Get::apply(self, dst, ctx) -> r +w [C06 C07 C08 C09] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Get(self.key@), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
