world-calls get_normal_connection format_conn
keep ClientList ClientType

top {{{
use crate::application::server::frame::{fv, fvs};
use crate::application::server::supervisor::whos;
}}}
bottom {{{
pub open spec fn ck(t: ClientType) -> Kind {
    match t {
        ClientType::Normal => Kind::Normal,
        ClientType::Replica => Kind::Replica,
        ClientType::Master => Kind::Master,
        ClientType::Pubsub => Kind::Pubsub,
    }
}
pub open spec fn ids(t: Option<Vec<u64>>) -> Seq<u64> {
    match t { Some(v) => v@, None => Seq::empty() }
}
}}}
fn ClientList::new(ty, ids) -> r [C05] {{{
    ensures r.r#type == ty, r.ids == ids
}}}
fn ClientList::parse_frames(parse) -> r [C05] {{{
    ensures match list_rq(old(parse).rest(), Kind::Normal) {
        Some(c) => r is Ok && c == Rq::List(ck(r->Ok_0.r#type), ids(r->Ok_0.ids)) && final(parse).rest().len() == 0,
        None => r is Err,
    }
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    proof { lemma_words(); }
    let ghost a0 = parse.rest();
}}}

loop 0 loop {{{
    invariant
        (ids@.len() == 0 && list_rq(a0, Kind::Normal) == list_rq(parse.rest(), ck(ty)))
        || (parse.rest().len() == 0 && list_rq(a0, Kind::Normal) == Some(Rq::List(ck(ty), ids@))),
    decreases parse.rest().len()
}}}
loop-head 0 {{{
    let ghost r0 = parse.rest();
    proof { assert(ids@.len() == 0 ==> ids@ =~= Seq::<u64>::empty()); }
}}}
loop 1 loop {{{
    invariant
        ints(Seq::empty(), r0.drop_first()) == ints(ids@, parse.rest()),
        parse.rest().len() < r0.len(),
    decreases parse.rest().len()
}}}

drop-use anyhow::bail

fn ClientList::apply(self, dst, ctx) -> r +w [C08 C09 C10 C11] {{{
    requires old(dst).held() == 0, ctx.unread(old(w))
    ensures
        final(w).kept(old(w), ctx.cell()),
        r is Ok ==> final(dst).held() == 0,
        answered(Rq::List(ck(self.r#type), ids(self.ids)), ctx.asker(), old(w).evs(), final(w).evs(), old(dst).sent(), final(dst).sent(), r is Ok),
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
local conn_frames = let~Vec::with_capacity
head {{{
    broadcast use {crate::application::server::frame::group_fv, crate::spec::reply::lemma_listing};
}}}
loop-pre 0 {{{
    let ghost l1 = w.evs();
    let ghost conns = __it0@;
    let ghost l = whos(conns);
    let ghost (seen, flags) = choose|seen: Seq<Who>, flags: Seq<bool>| #[trigger] listed(seen, flags, l)
        && l1 == old(w).evs().push(Ev::Scan { map: ctx.supervisor.map(), seen }) + walk(seen, flags);
    let ghost mut names = Seq::<Option<Seq<u8>>>::empty();
}}}
loop 0 for-iter {{{
    invariant
        w.cells == old(w).cells, w.incoming == old(w).incoming,
        names.len() + __it0@.len() == conns.len(),
        __it0@ =~= conns.skip(names.len() as int),
        w.evs() =~= l1 + asked(l, names),
        fvs(conn_frames@) =~= descriptions(l, names),
    ensures
        old(w).evs().is_prefix_of(w.evs()),
        list_steps(ctx.supervisor.map(), seen, flags, l, names, w.evs().subrange(old(w).evs().len() as int, w.evs().len() as int)),
        fvs(conn_frames@) == descriptions(l, names),
    decreases __it0@.len()
}}}
loop-tail 0 {{{
    proof { names = names.push(last_name(w.evs())); }
}}}
loop-post 0 {{{
    proof {
        assert(list_steps(ctx.supervisor.map(), seen, flags, l, names, w.evs().subrange(old(w).evs().len() as int, w.evs().len() as int)));
    }
}}}
