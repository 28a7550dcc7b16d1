world-calls apply
keep Client
defaults-from application/server/cmd/mod.rs
mods get_name id info list set_info set_name

top {{{
use crate::application::server::cmd::{rq, ob};
use crate::application::server::frame::{fv, fvs};
}}}
impl-extra Client as SubcommandRegistry {{{
    pub open spec fn rq(&self) -> Rq {
        match *self {
            Client::Help => Rq::Help,
            Client::SetInfo(x) => Rq::SetInfo(ob(x.lib_name), ob(x.lib_version)),
            Client::Info(_) => Rq::Info,
            Client::SetName(x) => Rq::SetName(x.name@),
            Client::GetName(_) => Rq::GetName,
            Client::List(x) => Rq::List(list::ck(x.r#type), list::ids(x.ids)),
            Client::Id(_) => Rq::Id,
        }
    }
}}}
fn Client::from_parse(parse) -> r [C05] {{{
    ensures match client_rq(parse.rest()) {
        Some(c) => r is Ok && rq(r->Ok_0) == c,
        None => r is Err,
    }
}}}
head {{{
    proof { lemma_words(); }
}}}

fn Client::hash_key(self) -> r [C12] {{{
    ensures r is None
}}}

fn Client::apply(self, dst, ctx) -> r +w [C08 C09] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(self.rq(), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}

fn Client::help(dst, _ctx) -> r [C08 C09] {{{
    requires old(dst).held() == 0
    ensures
        r is Ok ==> final(dst).held() == 0,
        exists|v: FV| #[trigger] said(v) && v is Array && v->Array_0 =~= help()
            && (if r is Ok { final(dst).sent() == old(dst).sent() + enc(v) } else { crate::shim::monoio::io::part(old(dst).sent(), enc(v), final(dst).sent()) }),
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 collect {{{
    invariant
        __it0.s@ == lines(crate::help_text()), 0 <= __it0.i@ <= __it0.s@.len(),
        fvs(__out0@) =~= help().subrange(0, __it0.i@),
    ensures fvs(__out0@) =~= help()
    decreases __it0.s@.len() - __it0.i@
}}}
head {{{
    broadcast use {crate::application::server::frame::group_fv, crate::shim::bytestring::axiom_of_str};
}}}
fn const HELP_TEXT() -> r +trusted [C08] {{{
    ensures crate::shim::text::str_bytes(r@) == crate::help_text()
}}}
