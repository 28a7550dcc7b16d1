world-calls set_name
keep ClientSetName

fn ClientSetName::new(name) -> r [C05] {{{
    ensures r.name@ == name@
}}}
fn ClientSetName::parse_frames(parse) -> r [C05] {{{
    ensures
        final(parse).read(old(parse)),
        r is Ok <==> old(parse).rest().len() > 0 && text_arg(old(parse).rest()[0]) is Some,
        r is Ok ==> Some(r->Ok_0.name@) == text_arg(old(parse).rest()[0]),
}}}

fn ClientSetName::apply(self, dst, ctx) -> r +w [C08 C09 C11] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::SetName(self.name@), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 all {{{
    invariant
        __it0.s@ == self.name@, 0 <= __it0.i@ <= __it0.s@.len(),
        __all0 <==> forall|i: int| 0 <= i < __it0.i@ ==> 0x21 <= #[trigger] self.name@[i] <= 0x7e,
        __all0,
    ensures __all0 ==> __it0.i@ == __it0.s@.len(), __all0 <==> graphic(self.name@)
    decreases __it0.s@.len() - __it0.i@
}}}
