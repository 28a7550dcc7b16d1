keep ClientSetInfo

top {{{
use crate::application::server::cmd::ob;
}}}
fn const LIB_NAME() -> r [C05] {{{
    ensures r@ == w_lib_name()
}}}
fn const LIB_VERSION() -> r [C05] {{{
    ensures r@ == w_lib_ver()
}}}
fn ClientSetInfo::new(lib_name, lib_version) -> r [C05] {{{
    ensures ob(r.lib_name) == ob(lib_name), ob(r.lib_version) == ob(lib_version)
}}}
fn ClientSetInfo::parse_frames(parse) -> r [C05] {{{
    ensures match r {
        Ok(s) => if final(parse).rest().len() == 0 {
            setinfo_rq(old(parse).rest()) == Some(Rq::SetInfo(ob(s.lib_name), ob(s.lib_version)))
        } else {
            setinfo_rq(old(parse).rest()) is None
        },
        Err(_) => setinfo_rq(old(parse).rest()) is None,
    }
}}}
head {{{
    proof { lemma_words(); }
}}}

fn ClientSetInfo::apply(self, dst, _ctx) -> r +w [C08 C09] {{{
    requires old(dst).held() == 0, _ctx.unread(old(w))
    ensures
        final(w).kept(old(w), _ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::SetInfo(ob(self.lib_name), ob(self.lib_version)), _ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
