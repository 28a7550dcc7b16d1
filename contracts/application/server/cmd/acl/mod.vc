world-calls apply
keep Acl
defaults-from application/server/cmd/mod.rs
mods cat

top {{{
use crate::application::server::cmd::rq;
}}}
impl-extra Acl as SubcommandRegistry {{{
    pub open spec fn rq(&self) -> Rq {
        match *self { Acl::Cat(x) => Rq::AclCat(cat::os(x.category)) }
    }
}}}
fn Acl::from_parse(parse) -> r [C05] {{{
    ensures match acl_rq(parse.rest()) {
        Some(c) => r is Ok && rq(r->Ok_0) == c,
        None => r is Err,
    }
}}}
head {{{
    proof { lemma_words(); }
}}}

fn Acl::hash_key(self) -> r [C12] {{{
    ensures r is None
}}}

fn Acl::apply(self, dst, ctx) -> r +w [C08 C09] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(self.rq(), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
