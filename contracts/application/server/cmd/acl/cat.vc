keep AclCat

bottom {{{
pub open spec fn os(b: Option<crate::shim::bytestring::ByteString>) -> Option<Seq<u8>> {
    match b { Some(x) => Some(x@), None => None }
}
}}}
fn AclCat::new(category) -> r [C05] {{{
    ensures os(r.category) == os(category)
}}}
fn AclCat::parse_frames(parse) -> r [C05] {{{
    ensures
        old(parse).rest().len() == 0 ==> r is Ok && r->Ok_0.category is None,
        old(parse).rest().len() > 0 ==> match text_arg(old(parse).rest()[0]) {
            Some(b) => r is Ok && os(r->Ok_0.category) == Some(b),
            None => r is Err,
        },
        final(parse).read(old(parse)),
}}}

fn AclCat::apply(self, dst, _ctx) -> r +w [C08 C09] {{{
    requires old(dst).held() == 0, _ctx.unread(old(w))
    ensures
        final(w).kept(old(w), _ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::AclCat(os(self.category)), _ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
