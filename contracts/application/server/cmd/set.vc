world-calls set_async now
keep Set
defaults-from application/server/cmd/mod.rs

bottom {{{
/// The time to live that was asked for.
pub open spec fn ttl(d: Option<crate::shim::std::time::Duration>) -> Option<int> {
    match d {
        None => None,
        Some(d) => Some(d.ns()),
    }
}
}}}

fn Set::parse_frames(parse) -> r [C05 C07] {{{
    ensures match r {
        Ok(s) => if final(parse).rest().len() == 0 {
            set_rq(old(parse).rest()) == Some(Rq::Set(s.key@, s.value@, ttl(s.expire)))
        } else {
            set_rq(old(parse).rest()) is None
        },
        Err(_) => set_rq(old(parse).rest()) is None,
    }
}}}
head {{{
    proof { lemma_words(); }
}}}

fn Set::hash_key(self) -> r [C12] {{{
    ensures r is Some, r->Some_0 as int == slot_of(self.key@)
}}}

fn Set::apply(self, dst, ctx) -> r +w [C06 C07 C08 C09] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::Set(self.key@, self.value@, ttl(self.expire)), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
head {{{
    proof { lemma_spans(); }
}}}
