//! What is shared between the connections, and the events by which one
//! of them looks at it or changes it.
use vstd::prelude::*;
use super::resp::*;
verus! {

/// What a key holds, and until when.
pub struct Item { pub bytes: Seq<u8>, pub until: Option<int> }

/// A connection: its id, where its name is and whether it has ended, its addresses
/// and its descriptor.
pub struct Who { pub id: int, pub lock: int, pub flag: int, pub addr: Seq<u8>, pub laddr: Seq<u8>, pub fd: Seq<u8>, pub normal: bool }

/// Who asks: its connection, the map its keys are in, and the map of the connections.
pub struct Asker { pub me: Who, pub db: int, pub map: int }

/// A connection that was accepted: the addresses of its two sides, its descriptor,
/// and whether it broke off before it could be served.
pub struct Incoming { pub conn: int, pub addr: Seq<u8>, pub laddr: Seq<u8>, pub fd: Seq<u8>, pub gone: bool }

/// One step on something shared. Each is atomic: between `before` and `after`
/// of a `Tx` nobody else has a step on that key.
pub enum Ev {
    /// The key of a map was locked with `before` in it, and released with `after` in it.
    Tx { db: int, key: Seq<u8>, before: Option<Item>, after: Option<Item> },
    /// The clock was read.
    Clock { t: int },
    /// The name of a connection was read, or replaced.
    Name { lock: int, name: Option<Seq<u8>> },
    SetName { lock: int, name: Option<Seq<u8>> },
    /// `n` was drawn from a counter, which goes up by one.
    Ticket { counter: int, n: int },
    /// An entry was added to a map of connections.
    Enter { map: int, what: Who },
    /// A map of connections is gone through: what will be visited, in order.
    Scan { map: int, seen: Seq<Who> },
    /// A flag was read, or raised.
    Flag { flag: int, v: bool },
    Raise { flag: int },
    /// A task was spawned that reads the requests of a connection and puts them in a channel.
    Reads { conn: int, chan: int },
    /// One that takes requests out of a channel and answers them on a connection, for `who`.
    Answers { conn: int, chan: int, who: Asker },
    /// One that serves a connection, for `who`.
    Serves { conn: int, who: Asker },
    /// A thread was started that serves connections: its data, the map they are entered in,
    /// and the counter their ids are drawn from.
    Starts { db: int, map: int, counter: int },
    /// Something no contract allows.
    Other,
}

/// A length of time, in ticks of the clock (2^-32 of a second).
pub open spec fn ticks(secs: int, nanos: int) -> int {
    (secs % 0x1_0000_0000) * 0x1_0000_0000 + nanos * 9223372037 / 0x8000_0000
}
/// The same, given in nanoseconds.
#[verifier::opaque]
pub open spec fn span(ns: int) -> int { ticks(ns / 1_000_000_000, ns % 1_000_000_000) }
/// The longest one the clock of the server can represent.
pub open spec fn max_secs() -> int { 0x7fff_ffff }

pub proof fn lemma_span(ns: int)
    requires 0 <= ns <= max_secs() * 1_000_000_000
    ensures 0 <= span(ns) < 0x8000_0000_0000_0000
{
    reveal(span);
    let (s, r) = (ns / 1_000_000_000, ns % 1_000_000_000);
    assert(0 <= s <= 0x7fff_ffff && 0 <= r < 1_000_000_000);
    assert(s % 0x1_0000_0000 == s);
    assert(0 <= r * 9223372037 / 0x8000_0000 < 0x1_0000_0000);
}
pub proof fn lemma_spans()
    ensures forall|ns: int| 0 <= ns <= max_secs() * 1_000_000_000 ==> 0 <= #[trigger] span(ns) < 0x8000_0000_0000_0000
{
    assert forall|ns: int| 0 <= ns <= max_secs() * 1_000_000_000 implies 0 <= #[trigger] span(ns) < 0x8000_0000_0000_0000 by { lemma_span(ns); }
}
/// From `old` on, exactly these steps were made.
pub open spec fn did(old: Seq<Ev>, new: Seq<Ev>, es: Seq<Ev>) -> bool { new == old + es }

} // verus!
verus! {
/// What has expired at `t`.
pub open spec fn expired(i: Item, t: int) -> bool {
    match i.until { Some(u) => t > u, None => false }
}
/// What a GET at `now` makes of what it finds: an entry that has expired may go,
/// another one stays, and its value is what is returned.
pub open spec fn found(before: Option<Item>, after: Option<Item>, now: int, r: Option<Seq<u8>>) -> bool {
    match before {
        None => after is None && r is None,
        Some(i) => if expired(i, now) { (after is None || after == before) && r is None } else { after == before && r == Some(i.bytes) },
    }
}
} // verus!
verus! {
/// The description of a connection.
pub open spec fn describe(id: int, addr: Seq<u8>, laddr: Seq<u8>, fd: Seq<u8>, name: Option<Seq<u8>>) -> Seq<u8> {
    seq![105u8, 100u8, 61u8] + dig(id as nat)
        + seq![32u8, 97u8, 100u8, 100u8, 114u8, 61u8] + addr
        + seq![32u8, 108u8, 97u8, 100u8, 100u8, 114u8, 61u8] + laddr
        + seq![32u8, 102u8, 100u8, 61u8] + fd
        + seq![32u8, 110u8, 97u8, 109u8, 101u8, 61u8] + (match name { Some(n) => n, None => Seq::empty() })
}
/// What going through the connections gives: by id, those of which a visit found
/// that they had not ended.
pub open spec fn listed(seen: Seq<Who>, flags: Seq<bool>, r: Seq<Who>) -> bool {
    &&& flags.len() == seen.len()
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).id < (#[trigger] r[j]).id
    &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] visited(seen, flags, r[i])
    &&& forall|j: int| #[trigger] live(seen, flags, j) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).id == seen[j].id
}
/// A visit to `m` found that it had not ended.
pub open spec fn visited(seen: Seq<Who>, flags: Seq<bool>, m: Who) -> bool {
    exists|j: int| #[trigger] live(seen, flags, j) && m == seen[j]
}
pub open spec fn live(seen: Seq<Who>, flags: Seq<bool>, j: int) -> bool {
    0 <= j < seen.len() && j < flags.len() && !flags[j] && seen[j].normal
}
/// The steps of going through them.
pub open spec fn walk(seen: Seq<Who>, flags: Seq<bool>) -> Seq<Ev> {
    Seq::new(flags.len(), |j: int| Ev::Flag { flag: seen[j].flag, v: flags[j] })
}
/// The name read in the last step.
pub open spec fn last_name(l: Seq<Ev>) -> Option<Seq<u8>> {
    match l.last() { Ev::Name { lock, name } => name, _ => None }
}
/// Printable ASCII characters only, and no space.
pub open spec fn graphic(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0x21 <= #[trigger] s[i] <= 0x7e }
/// The two tasks of a connection were spawned.
pub open spec fn paired(l0: Seq<Ev>, l1: Seq<Ev>, from: int, to: int, who: Asker) -> bool {
    exists|chan: int| {
        ||| l1 == #[trigger] l0.push(Ev::Reads { conn: from, chan }).push(Ev::Answers { conn: to, chan, who })
        ||| l1 == l0.push(Ev::Answers { conn: to, chan, who }).push(Ev::Reads { conn: from, chan })
    }
}
/// The connection was served, and marked as ended.
pub open spec fn ended(l0: Seq<Ev>, l1: Seq<Ev>, conn: int, who: Asker) -> bool {
    exists|l: Seq<Ev>| #[trigger] paired(l0, l, conn, conn, who) && l1 == l.push(Ev::Raise { flag: who.me.flag })
}
/// From `l0` on, a thread does nothing but accepting connections: each one gets an id, is
/// entered, and then served, as the one that was entered, with the data of the thread.
pub open spec fn accepted(l0: Seq<Ev>, l: Seq<Ev>, db: int, map: int, counter: int) -> bool {
    &&& l0.is_prefix_of(l)
    &&& (l.len() - l0.len()) % 3 == 0
    &&& forall|i: int| l0.len() <= i < l.len() ==> #[trigger] accepting(l, l0.len() as int, i, db, map, counter)
}
pub open spec fn accepting(l: Seq<Ev>, from: int, i: int, db: int, map: int, counter: int) -> bool {
    if (i - from) % 3 == 0 { l[i] is Ticket && l[i]->Ticket_counter == counter }
    else if (i - from) % 3 == 1 { l[i] is Enter && l[i]->Enter_map == map && l[i - 1] is Ticket && l[i]->what.id == l[i - 1]->n }
    else { l[i] is Serves && l[i - 1] is Enter && l[i]->Serves_who == (Asker { me: l[i - 1]->what, db, map }) }
}
/// One connection more.
pub proof fn lemma_accept(l0: Seq<Ev>, lb: Seq<Ev>, l: Seq<Ev>, db: int, map: int, counter: int)
    requires
        accepted(l0, lb, db, map, counter),
        l.len() == lb.len() + 3, lb =~= l.take(lb.len() as int),
        accepting(l, lb.len() as int, lb.len() as int, db, map, counter),
        accepting(l, lb.len() as int, lb.len() as int + 1, db, map, counter),
        accepting(l, lb.len() as int, lb.len() as int + 2, db, map, counter),
    ensures accepted(l0, l, db, map, counter)
{
    let from = l0.len() as int;
    assert(l0.is_prefix_of(l)) by { assert forall|i: int| 0 <= i < from implies l0[i] == l[i] by { assert(lb[i] == l[i]); } assert(l.take(from) =~= l0); }
    assert forall|i: int| l0.len() <= i < l.len() implies #[trigger] accepting(l, from, i, db, map, counter) by {
        if i < lb.len() {
            assert(accepting(lb, from, i, db, map, counter));
            assert(lb[i] == l[i]);
            if i > from { assert(lb[i - 1] == l[i - 1]); }
        } else {
            assert(accepting(l, lb.len() as int, i, db, map, counter));
            assert((i - from) % 3 == (i - lb.len()) % 3) by (nonlinear_arith) requires (lb.len() - from) % 3 == 0, lb.len() >= from, i >= lb.len();
        }
    }
}
/// It is served, as the one it is: what describes it has its addresses and its descriptor.
pub open spec fn taken_up(l: Seq<Ev>, c: Incoming) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] takes_up(l[j], c) }
pub open spec fn takes_up(e: Ev, c: Incoming) -> bool {
    match e {
        Ev::Serves { conn, who } => conn == c.conn && who.me.addr == c.addr && who.me.laddr == c.laddr && who.me.fd == c.fd,
        _ => false,
    }
}
/// Of the connections accepted from the `from`-th on, all are served but those that broke off.
pub open spec fn all_taken_up(l: Seq<Ev>, cs: Seq<Incoming>, from: int) -> bool {
    forall|k: int| from <= k < cs.len() ==> (#[trigger] cs[k]).gone || taken_up(l, cs[k])
}
pub proof fn lemma_taken_up(l: Seq<Ev>, l1: Seq<Ev>, cs: Seq<Incoming>, cs1: Seq<Incoming>, from: int)
    requires
        all_taken_up(l, cs, from), 0 <= from <= cs.len(),
        l.is_prefix_of(l1), cs1.len() == cs.len() + 1, cs.is_prefix_of(cs1),
        cs1.last().gone || (l1.len() > 0 && takes_up(l1.last(), cs1.last())),
    ensures all_taken_up(l1, cs1, from)
{
    assert forall|k: int| from <= k < cs1.len() implies (#[trigger] cs1[k]).gone || taken_up(l1, cs1[k]) by {
        if k < cs.len() {
            assert(cs[k] == cs1[k]);
            if !cs[k].gone {
                let j = choose|j: int| 0 <= j < l.len() && #[trigger] takes_up(l[j], cs[k]);
                assert(l[j] == l1[j]);
            }
        } else if !cs1[k].gone { assert(takes_up(l1[l1.len() - 1], cs1[k])); }
    }
}
/// `n` threads are started, which share everything.
pub open spec fn starts(n: int, db: int, map: int, counter: int) -> Seq<Ev> {
    Seq::new(n as nat, |i: int| Ev::Starts { db, map, counter })
}
/// Threads of the server were started: whichever one a connection is accepted by,
/// it is served with the same data, and entered in the same map with an id of the same counter.
pub open spec fn started(l0: Seq<Ev>, l: Seq<Ev>) -> bool {
    exists|n: int, db: int, map: int, counter: int| l =~= l0 + #[trigger] starts(n, db, map, counter)
}
/// `n` was drawn, and not used yet.
pub open spec fn drawn(l: Seq<Ev>, n: int) -> bool {
    exists|i: int| #[trigger] drawn_at(l, i, n) && forall|j: int| i < j < l.len() ==> !#[trigger] used_at(l, j, n)
}
pub open spec fn drawn_at(l: Seq<Ev>, i: int, n: int) -> bool {
    0 <= i < l.len() && match l[i] { Ev::Ticket { counter, n: m } => m == n, _ => false }
}
pub open spec fn used_at(l: Seq<Ev>, i: int, n: int) -> bool {
    0 <= i < l.len() && match l[i] { Ev::Enter { map, what } => what.id == n, _ => false }
}
} // verus!
