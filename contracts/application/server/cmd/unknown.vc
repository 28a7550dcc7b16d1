keep Unknown
defaults-from application/server/cmd/mod.rs
drop-use tracing

fn Unknown::new(key) -> r [C05 C08] {{{
    ensures r.command_name@ == key.to_string_spec()
}}}

fn Unknown::hash_key(self) -> r [C12] {{{
    ensures r is None
}}}

fn Unknown::apply(self, dst, _ctx) -> r +w [C05 C08 C09] {{{
    requires old(dst).held() == 0, _ctx.unread(old(w))
    ensures
        final(w).kept(old(w), _ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Unknown(self.command_name@), _ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
