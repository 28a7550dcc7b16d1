//! What a request is answered, and the steps it makes on what is shared.
use vstd::prelude::*;
use super::resp::*;
#[allow(unused_imports)] use crate::shim::monoio::io::part;
use super::request::*;
use super::world::*;
verus! {

/// `v` is given as a reply.
pub open spec fn said(v: FV) -> bool { true }

// Texts of the replies.
pub open spec fn w_ok() -> Seq<u8> { seq![79u8, 75] }
pub open spec fn w_pong() -> Seq<u8> { seq![80u8, 79, 78, 71] }
/// `ERR unknown command '`
pub open spec fn w_unknown() -> Seq<u8> {
    seq![69u8, 82, 82, 32, 117, 110, 107, 110, 111, 119, 110, 32, 99, 111, 109, 109, 97, 110, 100, 32, 39]
}
pub open spec fn w_server() -> Seq<u8> { seq![115u8, 101, 114, 118, 101, 114] }
pub open spec fn w_roster() -> Seq<u8> { seq![114u8, 111, 115, 116, 101, 114] }
pub open spec fn w_version() -> Seq<u8> { seq![118u8, 101, 114, 115, 105, 111, 110] }
pub open spec fn w_proto() -> Seq<u8> { seq![112u8, 114, 111, 116, 111] }
pub open spec fn w_mode() -> Seq<u8> { seq![109u8, 111, 100, 101] }
pub open spec fn w_standalone() -> Seq<u8> { seq![115u8, 116, 97, 110, 100, 97, 108, 111, 110, 101] }
pub open spec fn w_role() -> Seq<u8> { seq![114u8, 111, 108, 101] }
pub open spec fn w_undefined() -> Seq<u8> { seq![117u8, 110, 100, 101, 102, 105, 110, 101, 100] }
pub open spec fn w_modules() -> Seq<u8> { seq![109u8, 111, 100, 117, 108, 101, 115] }

/// The properties of the server, for the connection `id`.
pub open spec fn hello(id: int) -> Seq<(FV, FV)> {
    seq![
        (FV::Bulk(w_server()), FV::Bulk(w_roster())),
        (FV::Bulk(w_version()), FV::Bulk(crate::version())),
        (FV::Bulk(w_proto()), FV::Integer(3)),
        (FV::Bulk(w_id()), FV::Integer(id as u64)),
        (FV::Bulk(w_mode()), FV::Bulk(w_standalone())),
        (FV::Bulk(w_role()), FV::Bulk(w_undefined())),
        (FV::Bulk(w_modules()), FV::Array(Seq::empty())),
    ]
}
/// Nothing but looking at the clock, for the `n` first steps.
pub open spec fn clocks(es: Seq<Ev>, n: int) -> bool {
    n <= es.len() && forall|i: int| 0 <= i < n ==> (#[trigger] es[i]) is Clock
}
/// A request that leaves what is shared as it is, and does not depend on it.
pub open spec fn idle(es: Seq<Ev>) -> bool { clocks(es, es.len() as int) }

/// How long an entry lives, in ticks: what was asked for, or the longest time
/// the clock can represent.
pub open spec fn life(ns: int) -> int {
    let m = if max_secs() * 1_000_000_000 < ns { max_secs() * 1_000_000_000 } else { ns };
    span(m)
}
/// The steps of a SET.
pub open spec fn set_steps(db: int, k: Seq<u8>, b: Seq<u8>, ttl: Option<int>, es: Seq<Ev>) -> bool {
    let n = es.len() - 1;
    &&& n >= 0
    &&& clocks(es, n)
    &&& match es[n] {
        Ev::Tx { db: d, key, before, after } => d == db && key == k && match after {
            Some(i) => i.bytes == b && match ttl {
                None => i.until is None,
                Some(ns) => n >= 1 && i.until == Some(es[n - 1]->Clock_t + life(ns)),
            },
            None => false,
        },
        _ => false,
    }
}
/// The steps of a GET: `v` is what it returns.
pub open spec fn get_steps(db: int, k: Seq<u8>, v: Option<Seq<u8>>, es: Seq<Ev>) -> bool {
    let n = es.len() - 1;
    &&& n >= 1
    &&& clocks(es, n)
    &&& match es[n] {
        Ev::Tx { db: d, key, before, after } => d == db && key == k && found(before, after, es[n - 1]->Clock_t, v),
        _ => false,
    }
}
pub open spec fn or_null(v: FV) -> Option<Seq<u8>> { match v { FV::Bulk(b) => Some(b), _ => None } }
/// One step: the name of the connection was read.
pub open spec fn named(es: Seq<Ev>, lock: int, name: Option<Seq<u8>>) -> bool {
    es.len() == 1 && es[0] == Ev::Name { lock, name }
}
pub open spec fn description(m: Who, name: Option<Seq<u8>>) -> Seq<u8> { describe(m.id, m.addr, m.laddr, m.fd, name) }

/// The steps of CLIENT LIST: which connections there are, which of them have
/// ended, and the names of the others.
pub open spec fn list_steps(map: int, seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>, names: Seq<Option<Seq<u8>>>, es: Seq<Ev>) -> bool {
    &&& listed(seen, flags, l)
    &&& names.len() == l.len()
    &&& es =~= seq![Ev::Scan { map, seen }] + walk(seen, flags) + asked(l, names)
}
/// The names of `l` are read.
pub open spec fn asked(l: Seq<Who>, names: Seq<Option<Seq<u8>>>) -> Seq<Ev> {
    Seq::new(names.len(), |i: int| Ev::Name { lock: l[i].lock, name: names[i] })
}
pub open spec fn descriptions(l: Seq<Who>, names: Seq<Option<Seq<u8>>>) -> Seq<FV> {
    Seq::new(names.len(), |i: int| FV::Simple(description(l[i], names[i])))
}
/// The reply of CLIENT LIST.
pub open spec fn listing(map: int, es: Seq<Ev>, v: FV) -> bool {
    v is Array && exists|seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>, names: Seq<Option<Seq<u8>>>|
        #[trigger] list_steps(map, seen, flags, l, names, es) && v->Array_0 =~= descriptions(l, names)
}
pub broadcast proof fn lemma_listing(map: int, es: Seq<Ev>, v: FV, seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>, names: Seq<Option<Seq<u8>>>)
    requires #[trigger] list_steps(map, seen, flags, l, names, es), v is Array, v->Array_0 =~= descriptions(l, names)
    ensures #[trigger] listing(map, es, v)
{ }
/// The lines of a text, each of which ends with a line feed.
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let i = feed(s, 0);
        if 0 <= i < s.len() { seq![s.subrange(0, i)] + lines(s.subrange(i + 1, s.len() as int)) } else { seq![s] }
    }
}
/// The first line feed from `i` on.
pub open spec fn feed(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() { if s[i] == 10 { i } else { feed(s, i + 1) } } else { s.len() as int }
}

/// The request `q`, asked by `a`, makes the steps `es` and is answered `v`.
pub open spec fn answer(q: Rq, a: Asker, es: Seq<Ev>, v: FV) -> bool {
    match q {
        Rq::Ping(m) => idle(es) && match m { None => simple(v, w_pong()), Some(b) => v == FV::Bulk(b) },
        Rq::Set(k, b, ttl) => simple(v, w_ok()) && set_steps(a.db, k, b, ttl, es),
        Rq::Get(k) => (v is Bulk || v is Null) && get_steps(a.db, k, or_null(v), es),
        Rq::Hello => idle(es) && v is Map && v->Map_0 =~= hello(a.me.id),
        Rq::Id => idle(es) && v == FV::Integer(a.me.id as u64),
        Rq::GetName => (v is Bulk || v is Null) && named(es, a.me.lock, or_null(v)),
        Rq::Info => named(es, a.me.lock, last_name(es)) && simple(v, description(a.me, last_name(es))),
        Rq::SetName(n) => if graphic(n) {
            simple(v, w_ok()) && es.len() == 1 && es[0] == Ev::SetName { lock: a.me.lock, name: if n.len() == 0 { None } else { Some(n) } }
        } else {
            v is Error && idle(es)
        },
        Rq::SetInfo(_, _) => idle(es) && simple(v, w_ok()),
        Rq::List(_, _) => listing(a.map, es, v),
        Rq::Help => idle(es) && v is Array && v->Array_0 =~= help(),
        Rq::AclCat(_) => idle(es) && v is Error,
        Rq::Unknown(n) => idle(es) && v is Error && v->Error_0 =~= w_unknown() + n + seq![39u8],
    }
}
pub open spec fn simple(v: FV, t: Seq<u8>) -> bool { v is Simple && v->Simple_0 =~= t }
/// The text of CLIENT HELP, line by line.
pub open spec fn help() -> Seq<FV> { lines(crate::help_text()).map_values(|l: Seq<u8>| FV::Simple(l)) }
/// From the log `l0` and the bytes `s0` sent so far to `l1` and `s1`: the request was
/// executed and its reply sent: all of it, unless the connection failed while it was.
pub open spec fn answered(q: Rq, a: Asker, l0: Seq<Ev>, l1: Seq<Ev>, s0: Seq<u8>, s1: Seq<u8>, ok: bool) -> bool {
    exists|v: FV| #[trigger] said(v) && l0.is_prefix_of(l1) && answer(q, a, l1.subrange(l0.len() as int, l1.len() as int), v)
        && (if ok { s1 == s0 + enc(v) } else { part(s0, enc(v), s1) })
}
} // verus!
