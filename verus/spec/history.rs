//! The properties that are about all the connections together: what the contracts of
//! the requests (`answer`) give over every interleaving of their steps.
//!
//! A history is the steps of everybody on what is shared, in the order in which they
//! took effect. It is consistent when every object behaves as one object: that is what
//! is assumed of the map, of the locks, of the counter, of the flags and of the clock.
use vstd::prelude::*;
use super::resp::*;
use super::request::*;
use super::world::*;
use super::reply::*;
verus! {

/// A request which was executed: who asked, where its steps are in the history, and
/// what was answered.
pub struct Op { pub rq: Rq, pub who: Asker, pub pos: Seq<int>, pub reply: FV }
pub open spec fn steps(h: Seq<Ev>, pos: Seq<int>) -> Seq<Ev> { Seq::new(pos.len(), |i: int| h[pos[i]]) }
pub open spec fn placed(h: Seq<Ev>, pos: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < h.len()
    &&& forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j]
}
pub open spec fn ran(h: Seq<Ev>, op: Op) -> bool {
    placed(h, op.pos) && answer(op.rq, op.who, steps(h, op.pos), op.reply)
}

/// What a key of a map holds after the `n` first steps.
pub open spec fn under(h: Seq<Ev>, n: int, db: int, key: Seq<u8>) -> Option<Item>
    decreases n
{
    if n <= 0 { None } else if on_key(h[n - 1], db, key) { h[n - 1]->Tx_after } else { under(h, n - 1, db, key) }
}
pub open spec fn on_key(e: Ev, db: int, key: Seq<u8>) -> bool {
    match e { Ev::Tx { db: d, key: k, before, after } => d == db && k == key, _ => false }
}
/// The name kept in a lock after the `n` first steps.
pub open spec fn name_in(h: Seq<Ev>, n: int, lock: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { None } else if names(h[n - 1], lock) { h[n - 1]->SetName_name } else { name_in(h, n - 1, lock) }
}
pub open spec fn names(e: Ev, lock: int) -> bool { match e { Ev::SetName { lock: l, name } => l == lock, _ => false } }
/// A flag was raised in the `n` first steps.
pub open spec fn raised(h: Seq<Ev>, n: int, flag: int) -> bool {
    exists|p: int| 0 <= p < n && #[trigger] h[p] == (Ev::Raise { flag })
}
/// `n` was drawn from `counter` at `p`.
pub open spec fn ticket(h: Seq<Ev>, p: int, counter: int, n: int) -> bool {
    0 <= p < h.len() && h[p] == (Ev::Ticket { counter, n })
}
pub open spec fn entered(h: Seq<Ev>, p: int, map: int, what: Who) -> bool {
    0 <= p < h.len() && h[p] == (Ev::Enter { map, what })
}
pub open spec fn known(h: Seq<Ev>, map: int, what: Who) -> bool { exists|p: int| #[trigger] entered(h, p, map, what) }
/// Going through a map at `p0` visits every connection that is there when it starts, and only connections.
pub open spec fn scanned(h: Seq<Ev>, map: int, p0: int, seen: Seq<Who>) -> bool {
    &&& forall|q: int, what: Who| q < p0 && #[trigger] entered(h, q, map, what) ==> seen.contains(what)
    &&& forall|j: int| 0 <= j < seen.len() ==> known(h, map, #[trigger] seen[j])
}
/// What is assumed of the shared objects: each step finds what the last ones left.
pub open spec fn consistent(h: Seq<Ev>) -> bool {
    &&& forall|p: int| 0 <= p < h.len() ==> #[trigger] fits(h, p)
    // the clock does not go back, and the counter goes up
    &&& forall|p: int, q: int| 0 <= p < q < h.len() && h[p] is Clock && h[q] is Clock ==> (#[trigger] h[p])->Clock_t <= (#[trigger] h[q])->Clock_t
    &&& forall|p: int, q: int, c: int, m: int, n: int| p < q && #[trigger] ticket(h, p, c, m) && #[trigger] ticket(h, q, c, n) ==> m < n
}
pub open spec fn fits(h: Seq<Ev>, p: int) -> bool {
    match h[p] {
        Ev::Tx { db, key, before, after } => before == under(h, p, db, key),
        Ev::Name { lock, name } => name == name_in(h, p, lock),
        Ev::Flag { flag, v } => v == raised(h, p, flag),
        // every connection that is there when it starts is visited, and only connections are
        Ev::Scan { map, seen } => scanned(h, map, p, seen),
        _ => true,
    }
}
/// What is kept under a key, and the names, are only changed by the requests of `ops`,
/// and each step is a step of one request.
pub open spec fn history(h: Seq<Ev>, ops: Seq<Op>) -> bool {
    &&& consistent(h)
    &&& forall|k: int| 0 <= k < ops.len() ==> ran(h, #[trigger] ops[k])
    &&& forall|p: int| 0 <= p < h.len() && (h[p] is Tx || h[p] is SetName) ==> #[trigger] made(ops, p)
    &&& forall|k: int, i: int, l: int, j: int, p: int| #[trigger] is_step(ops, k, i, p) && #[trigger] is_step(ops, l, j, p) ==> k == l
}
pub open spec fn made(ops: Seq<Op>, p: int) -> bool {
    exists|k: int, i: int| #[trigger] is_step(ops, k, i, p)
}
pub open spec fn is_step(ops: Seq<Op>, k: int, i: int, p: int) -> bool {
    0 <= k < ops.len() && 0 <= i < ops[k].pos.len() && ops[k].pos[i] == p
}

/// A SET of the key takes effect at `p`.
pub open spec fn set_at(h: Seq<Ev>, ops: Seq<Op>, k: int, p: int, db: int, key: Seq<u8>) -> bool {
    0 <= k < ops.len() && ops[k].pos.len() > 0 && ops[k].pos.last() == p && ops[k].who.db == db
        && match ops[k].rq { Rq::Set(x, _, _) => x == key, _ => false }
}
pub open spec fn some_set(h: Seq<Ev>, ops: Seq<Op>, p: int, db: int, key: Seq<u8>) -> bool {
    exists|k: int| #[trigger] set_at(h, ops, k, p, db, key)
}
/// The last SET of the key before `n` takes effect at `p`.
pub open spec fn last_set(h: Seq<Ev>, ops: Seq<Op>, p: int, n: int, db: int, key: Seq<u8>) -> bool {
    0 <= p < n && some_set(h, ops, p, db, key) && forall|q: int| p < q < n ==> !#[trigger] some_set(h, ops, q, db, key)
}
/// The clock was read past `u` before `n`.
pub open spec fn past(h: Seq<Ev>, n: int, u: int) -> bool {
    exists|c: int| 0 <= c < n && c < h.len() && (#[trigger] h[c]) is Clock && h[c]->Clock_t > u
}
/// What SET `k` leaves under its key.
pub open spec fn item_of(h: Seq<Ev>, op: Op) -> Item {
    let n = op.pos.len() - 1;
    Item { bytes: op.rq->Set_1, until: match op.rq->Set_2 { None => None, Some(ns) => Some(h[op.pos[n - 1]]->Clock_t + life(ns)) } }
}

/// What a request does to the keys: at most one step, its last, on its own key.
pub proof fn lemma_tx(h: Seq<Ev>, ops: Seq<Op>, k: int, i: int)
    requires history(h, ops), 0 <= k < ops.len(), 0 <= i < ops[k].pos.len(), h[ops[k].pos[i]] is Tx
    ensures
        i == ops[k].pos.len() - 1,
        h[ops[k].pos[i]]->Tx_db == ops[k].who.db,
        match ops[k].rq {
            Rq::Set(key, _, _) => h[ops[k].pos[i]]->Tx_key == key && h[ops[k].pos[i]]->Tx_after == Some(item_of(h, ops[k])),
            Rq::Get(key) => h[ops[k].pos[i]]->Tx_key == key && get_steps(ops[k].who.db, key, or_null(ops[k].reply), steps(h, ops[k].pos)),
            _ => false,
        },
{
    let op = ops[k];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    assert(es[i] == h[op.pos[i]]);
    if let Rq::List(_, _) = op.rq { lemma_walk(op.who.map, es, op.reply); }
}
/// CLIENT LIST changes nothing.
proof fn lemma_walk(map: int, es: Seq<Ev>, v: FV)
    requires listing(map, es, v)
    ensures forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Scan || es[i] is Flag || es[i] is Name
{
    let (seen, flags, l, nm) = choose|seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>, nm: Seq<Option<Seq<u8>>>|
        #[trigger] list_steps(map, seen, flags, l, nm, es) && v->Array_0 =~= descriptions(l, nm);
    assert(es =~= seq![Ev::Scan { map, seen }] + walk(seen, flags) + asked(l, nm));
}

/// What a key holds is what the last SET of it left, unless that was past its time.
pub proof fn lemma_holds(h: Seq<Ev>, ops: Seq<Op>, n: int, db: int, key: Seq<u8>)
    requires history(h, ops), 0 <= n <= h.len()
    ensures
        (forall|p: int| 0 <= p < n ==> !#[trigger] some_set(h, ops, p, db, key)) ==> under(h, n, db, key) is None,
        forall|k: int, p: int| #[trigger] set_at(h, ops, k, p, db, key) && last_set(h, ops, p, n, db, key) ==>
            under(h, n, db, key) == Some(item_of(h, ops[k]))
            || (under(h, n, db, key) is None && item_of(h, ops[k]).until is Some && past(h, n, item_of(h, ops[k]).until->Some_0)),
    decreases n
{
    if n > 0 {
        lemma_holds(h, ops, n - 1, db, key);
        let e = h[n - 1];
        assert(fits(h, n - 1));
        if on_key(e, db, key) {
            assert(made(ops, n - 1));
            let (k, i) = choose|k: int, i: int| #[trigger] is_step(ops, k, i, n - 1);
            lemma_tx(h, ops, k, i);
            match ops[k].rq {
                Rq::Set(_, _, _) => {
                    assert(set_at(h, ops, k, n - 1, db, key));
                    assert(some_set(h, ops, n - 1, db, key));
                    assert forall|k2: int, p: int| #[trigger] set_at(h, ops, k2, p, db, key) && last_set(h, ops, p, n, db, key)
                        implies under(h, n, db, key) == Some(item_of(h, ops[k2])) by {
                        assert(p == n - 1);
                        let j = ops[k2].pos.len() - 1;
                        assert(ops[k2].pos[j] == n - 1);
                        lemma_tx(h, ops, k2, j);
                    }
                },
                _ => {
                    // a GET
                    let es = steps(h, ops[k].pos);
                    let m = es.len() - 1;
                    assert(es[m] == h[n - 1]);
                    let c = ops[k].pos[m - 1];
                    assert(ran(h, ops[k]));
                    assert(es[m - 1] == h[c]);
                    assert(es[m - 1] is Clock);
                    assert(ops[k].pos[m - 1] < ops[k].pos[m]);
                    let now = h[c]->Clock_t;
                    assert(!some_set(h, ops, n - 1, db, key)) by {
                        if some_set(h, ops, n - 1, db, key) {
                            let k2 = choose|k2: int| #[trigger] set_at(h, ops, k2, n - 1, db, key);
                            let j = ops[k2].pos.len() - 1;
                            assert(ops[k2].pos[j] == n - 1);
                            assert(is_step(ops, k2, j, n - 1));
                        }
                    }
                    assert forall|k2: int, p: int| #[trigger] set_at(h, ops, k2, p, db, key) && last_set(h, ops, p, n, db, key)
                        implies under(h, n, db, key) == Some(item_of(h, ops[k2]))
                            || (under(h, n, db, key) is None && item_of(h, ops[k2]).until is Some && past(h, n, item_of(h, ops[k2]).until->Some_0)) by {
                        assert(p < n - 1);
                        assert(last_set(h, ops, p, n - 1, db, key));
                        lemma_past(h, n - 1, n, item_of(h, ops[k2]).until->Some_0);
                        if under(h, n - 1, db, key) is Some && under(h, n, db, key) is None {
                            assert(past(h, n, item_of(h, ops[k2]).until->Some_0)) by { assert(h[c] is Clock && h[c]->Clock_t > item_of(h, ops[k2]).until->Some_0); }
                        }
                    }
                    if forall|p: int| 0 <= p < n ==> !#[trigger] some_set(h, ops, p, db, key) {
                        assert(under(h, n - 1, db, key) is None);
                    }
                },
            }
        } else {
            assert(!some_set(h, ops, n - 1, db, key)) by {
                if some_set(h, ops, n - 1, db, key) {
                    let k2 = choose|k2: int| #[trigger] set_at(h, ops, k2, n - 1, db, key);
                    assert(ran(h, ops[k2]));
                    let es = steps(h, ops[k2].pos);
                    let j = ops[k2].pos.len() - 1;
                    assert(es[j] == h[n - 1]);
                }
            }
            assert forall|k2: int, p: int| #[trigger] set_at(h, ops, k2, p, db, key) && last_set(h, ops, p, n, db, key)
                implies under(h, n, db, key) == Some(item_of(h, ops[k2]))
                    || (under(h, n, db, key) is None && item_of(h, ops[k2]).until is Some && past(h, n, item_of(h, ops[k2]).until->Some_0)) by {
                assert(p < n - 1);
                assert(last_set(h, ops, p, n - 1, db, key));
                lemma_past(h, n - 1, n, item_of(h, ops[k2]).until->Some_0);
            }
        }
    }
}
proof fn lemma_past(h: Seq<Ev>, m: int, n: int, u: int)
    requires m <= n
    ensures past(h, m, u) ==> past(h, n, u)
{
    if past(h, m, u) {
        let c = choose|c: int| 0 <= c < m && c < h.len() && (#[trigger] h[c]) is Clock && h[c]->Clock_t > u;
        assert(h[c] is Clock);
    }
}

/// C06, C07: a GET returns what the last SET of its key left, byte for byte, unless it
/// was left for a time which had passed when the clock was read; nil when there is no
/// such SET.
pub proof fn theorem_get(h: Seq<Ev>, ops: Seq<Op>, g: int)
    requires history(h, ops), 0 <= g < ops.len(), ops[g].rq is Get
    ensures ({
        let key = ops[g].rq->Get_0;
        let db = ops[g].who.db;
        let n = ops[g].pos.last();
        let r = or_null(ops[g].reply);
        let now = h[ops[g].pos[ops[g].pos.len() - 2]]->Clock_t;
        &&& (forall|p: int| 0 <= p < n ==> !#[trigger] some_set(h, ops, p, db, key)) ==> r is None
        &&& forall|k: int, p: int| #[trigger] set_at(h, ops, k, p, db, key) && last_set(h, ops, p, n, db, key) ==> match item_of(h, ops[k]).until {
            None => r == Some(ops[k].rq->Set_1),
            Some(u) => if r is None { past(h, n, u) } else { now <= u && r == Some(ops[k].rq->Set_1) },
        }
    })
{
    let op = ops[g];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    let m = es.len() - 1;
    assert(es[m] == h[op.pos[m]]);
    assert(es[m - 1] == h[op.pos[m - 1]]);
    assert(es[m - 1] is Clock);
    let n = op.pos[m];
    let (key, db) = (op.rq->Get_0, op.who.db);
    lemma_holds(h, ops, n, db, key);
    assert(fits(h, n));
    let c = op.pos[m - 1];
    assert(op.pos[m - 1] < op.pos[m]);
    assert forall|k: int, p: int| #[trigger] set_at(h, ops, k, p, db, key) && last_set(h, ops, p, n, db, key) implies match item_of(h, ops[k]).until {
        None => or_null(op.reply) == Some(ops[k].rq->Set_1),
        Some(u) => if or_null(op.reply) is None { past(h, n, u) } else { h[c]->Clock_t <= u && or_null(op.reply) == Some(ops[k].rq->Set_1) },
    } by {
        let it = item_of(h, ops[k]);
        assert(under(h, n, db, key) == h[n]->Tx_before);
        if let Some(u) = it.until {
            if or_null(op.reply) is None && h[n]->Tx_before is Some {
                assert(h[c] is Clock && h[c]->Clock_t > u);
            }
        }
    }
}

/// C06: a request only changes what its own key holds.
pub proof fn theorem_other_keys(h: Seq<Ev>, ops: Seq<Op>, k: int, i: int, db: int, key: Seq<u8>)
    requires
        history(h, ops), 0 <= k < ops.len(), 0 <= i < ops[k].pos.len(),
        !(ops[k].who.db == db && match ops[k].rq { Rq::Set(x, _, _) => x == key, Rq::Get(x) => x == key, _ => false }),
    ensures under(h, ops[k].pos[i] + 1, db, key) == under(h, ops[k].pos[i], db, key)
{
    assert(ran(h, ops[k]));
    if h[ops[k].pos[i]] is Tx { lemma_tx(h, ops, k, i); }
}

/// C06: a SET takes effect: right after it, its key holds its value.
pub proof fn theorem_set(h: Seq<Ev>, ops: Seq<Op>, k: int)
    requires history(h, ops), 0 <= k < ops.len(), ops[k].rq is Set
    ensures
        ops[k].pos.len() > 0,
        under(h, ops[k].pos.last() + 1, ops[k].who.db, ops[k].rq->Set_0) == Some(item_of(h, ops[k])),
{
    let op = ops[k];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    let m = es.len() - 1;
    assert(es[m] == h[op.pos[m]]);
    lemma_tx(h, ops, k, m);
}

/// C07: a time to live is kept as long as it was asked for, to the resolution of the
/// clock, which counts 2^-32 of a second: it is not more than one of these shorter, nor
/// longer.
pub proof fn theorem_ttl(ns: int)
    requires 0 <= ns
    ensures
        ns <= max_secs() * 1_000_000_000 ==> ns * 0x1_0000_0000 - 1_000_000_000 < life(ns) * 1_000_000_000 < ns * 0x1_0000_0000 + 1_000_000_000,
        // what the clock cannot represent is kept as long as it can
        ns >= max_secs() * 1_000_000_000 ==> life(ns) == max_secs() * 0x1_0000_0000,
        forall|m: int| 0 <= m <= ns ==> #[trigger] life(m) <= life(ns) + 1,
{
    let m = if max_secs() * 1_000_000_000 < ns { max_secs() * 1_000_000_000 } else { ns };
    lemma_life(m);
    reveal(span);
    assert(life(ns) == ticks(m / 1_000_000_000, m % 1_000_000_000));
    if ns >= max_secs() * 1_000_000_000 {
        assert(m == 0x7fff_ffff * 1_000_000_000);
        assert(m / 1_000_000_000 == 0x7fff_ffff && m % 1_000_000_000 == 0);
    }
    assert forall|n: int| 0 <= n <= ns implies #[trigger] life(n) <= life(ns) + 1 by {
        let q = if max_secs() * 1_000_000_000 < n { max_secs() * 1_000_000_000 } else { n };
        lemma_life(q);
        assert(life(n) == ticks(q / 1_000_000_000, q % 1_000_000_000));
    }
}
proof fn lemma_life(m: int)
    requires 0 <= m <= max_secs() * 1_000_000_000
    ensures ({
        let t = ticks(m / 1_000_000_000, m % 1_000_000_000);
        m * 0x1_0000_0000 - 1_000_000_000 < t * 1_000_000_000 < m * 0x1_0000_0000 + 1_000_000_000
    })
{
    let (s, r) = (m / 1_000_000_000, m % 1_000_000_000);
    assert(0 <= s <= 0x7fff_ffff && 0 <= r < 1_000_000_000 && m == s * 1_000_000_000 + r);
    let x = r * 9223372037 / 0x8000_0000;
    assert(x * 0x8000_0000 <= r * 9223372037 < x * 0x8000_0000 + 0x8000_0000);
    assert(s % 0x1_0000_0000 == s);
}

// ---------------------------------------------------------------- connections
/// A connection which was established: its ticket is at `t`, its entry at `e`.
pub struct Conn { pub t: int, pub e: int, pub who: Who }
pub open spec fn established(h: Seq<Ev>, counter: int, map: int, c: Conn) -> bool {
    c.t < c.e && ticket(h, c.t, counter, c.who.id) && entered(h, c.e, map, c.who)
}
/// The connections of a map are those of `cs`, each with its own ticket, flag and lock.
pub open spec fn connections(h: Seq<Ev>, counter: int, map: int, cs: Seq<Conn>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> established(h, counter, map, #[trigger] cs[i])
    &&& forall|p: int, what: Who| #[trigger] entered(h, p, map, what) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).e == p
    &&& forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).t != (#[trigger] cs[j]).t
        && cs[i].who.lock != cs[j].who.lock && cs[i].who.flag != cs[j].who.flag
}
/// C10: no two connections have the same id, and a connection has a greater one than
/// each connection that was established before its ticket was drawn.
pub proof fn theorem_ids(h: Seq<Ev>, counter: int, map: int, cs: Seq<Conn>, i: int, j: int)
    requires consistent(h), connections(h, counter, map, cs), 0 <= i < cs.len(), 0 <= j < cs.len(), i != j
    ensures
        cs[i].who.id != cs[j].who.id,
        cs[i].e < cs[j].t ==> cs[i].who.id < cs[j].who.id,
{
    assert(established(h, counter, map, cs[i]) && established(h, counter, map, cs[j]));
    assert(cs[i].t != cs[j].t);
    if cs[i].t < cs[j].t {
        assert(ticket(h, cs[i].t, counter, cs[i].who.id) && ticket(h, cs[j].t, counter, cs[j].who.id));
    } else {
        assert(ticket(h, cs[j].t, counter, cs[j].who.id) && ticket(h, cs[i].t, counter, cs[i].who.id));
    }
}
/// An id that was just drawn is not in the map: adding the connection cannot fail.
pub proof fn theorem_enter(h: Seq<Ev>, counter: int, map: int, cs: Seq<Conn>, i: int, q: int, what: Who)
    requires consistent(h), connections(h, counter, map, cs), 0 <= i < cs.len(), entered(h, q, map, what), q != cs[i].e
    ensures what.id != cs[i].who.id
{
    let j = choose|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).e == q;
    assert(established(h, counter, map, cs[j]));
    theorem_ids(h, counter, map, cs, i, j);
}
/// C10: CLIENT LIST describes once every connection established before it starts and
/// not ended when it returns, and none which had ended before it started.
pub proof fn theorem_list(h: Seq<Ev>, ops: Seq<Op>, counter: int, cs: Seq<Conn>, g: int)
    requires history(h, ops), 0 <= g < ops.len(), ops[g].rq is List, connections(h, counter, ops[g].who.map, cs)
    ensures
        ops[g].pos.len() > 0,
        exists|l: Seq<Who>| #[trigger] lists(h, cs, ops[g].pos[0], ops[g].pos.last(), l) && describes(h, ops[g], l),
{
    let op = ops[g];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    let map = op.who.map;
    let (seen, flags, l, nm) = choose|seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>, nm: Seq<Option<Seq<u8>>>|
        #[trigger] list_steps(map, seen, flags, l, nm, es) && op.reply->Array_0 =~= descriptions(l, nm);
    let all = seq![Ev::Scan { map, seen }] + walk(seen, flags) + asked(l, nm);
    assert(es =~= all);
    assert(all[0] == (Ev::Scan { map, seen }));
    assert(es[0] == h[op.pos[0]]);
    let p0 = op.pos[0];
    let p1 = op.pos.last();
    assert(op.pos[op.pos.len() - 1] == p1);
    assert(fits(h, p0));
    // the flags which were read
    assert forall|j: int| 0 <= j < flags.len() implies #[trigger] looked(h, p0, p1, seen[j], flags[j]) by {
        assert(all[j + 1] == walk(seen, flags)[j]);
        assert(es[j + 1] == h[op.pos[j + 1]]);
        assert(op.pos[0] < op.pos[j + 1]);
        if j + 1 < op.pos.len() - 1 { assert(op.pos[j + 1] < op.pos[op.pos.len() - 1]); }
        assert(fits(h, op.pos[j + 1]));
        assert(looked_at(h, op.pos[j + 1], p0, p1, seen[j], flags[j]));
    }
    assert(h[p0] == (Ev::Scan { map, seen }));
    lemma_lists(h, counter, map, cs, p0, p1, seen, flags, l);
    // the names which were read
    assert forall|i: int| 0 <= i < l.len() implies shows(h, p1, #[trigger] op.reply->Array_0[i], l[i]) by {
        assert(op.reply->Array_0[i] == descriptions(l, nm)[i]);
        let k = flags.len() + 1 + i;
        assert(all[k] == asked(l, nm)[i]);
        assert(es[k] == h[op.pos[k]]);
        assert(fits(h, op.pos[k]));
        if k < op.pos.len() - 1 { assert(op.pos[k] < op.pos[op.pos.len() - 1]); }
        assert(nm[i] == name_in(h, op.pos[k], l[i].lock));
    }
    assert(op.reply is Array);
    assert(op.reply->Array_0.len() == l.len());
    assert(describes(h, op, l));
}
/// Whether `m` had ended was read as `v` between `p0` and `p1`.
spec fn looked_at(h: Seq<Ev>, p: int, p0: int, p1: int, m: Who, v: bool) -> bool { p0 < p <= p1 && v == raised(h, p, m.flag) }
spec fn looked(h: Seq<Ev>, p0: int, p1: int, m: Who, v: bool) -> bool { exists|p: int| #[trigger] looked_at(h, p, p0, p1, m, v) }
proof fn lemma_raised(h: Seq<Ev>, p: int, q: int, f: int)
    requires p <= q
    ensures raised(h, p, f) ==> raised(h, q, f)
{
    if raised(h, p, f) {
        let r = choose|r: int| 0 <= r < p && #[trigger] h[r] == (Ev::Raise { flag: f });
        assert(h[r] == (Ev::Raise { flag: f }));
    }
}
proof fn lemma_conn(h: Seq<Ev>, counter: int, map: int, cs: Seq<Conn>, what: Who) -> (c: int)
    requires connections(h, counter, map, cs), known(h, map, what)
    ensures 0 <= c < cs.len(), cs[c].who == what, established(h, counter, map, cs[c])
{
    let q = choose|q: int| #[trigger] entered(h, q, map, what);
    let c = choose|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).e == q;
    assert(established(h, counter, map, cs[c]));
    c
}
proof fn lemma_lists(h: Seq<Ev>, counter: int, map: int, cs: Seq<Conn>, p0: int, p1: int, seen: Seq<Who>, flags: Seq<bool>, l: Seq<Who>)
    requires
        consistent(h), connections(h, counter, map, cs), listed(seen, flags, l), scanned(h, map, p0, seen),
        forall|j: int| 0 <= j < flags.len() ==> #[trigger] looked(h, p0, p1, seen[j], flags[j]),
    ensures lists(h, cs, p0, p1, l)
{
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] lively(h, cs, p0, l[i]) by {
        assert(visited(seen, flags, l[i]));
        let j = choose|j: int| #[trigger] live(seen, flags, j) && l[i] == seen[j];
        assert(looked(h, p0, p1, seen[j], flags[j]));
        let p = choose|p: int| #[trigger] looked_at(h, p, p0, p1, seen[j], flags[j]);
        lemma_raised(h, p0, p, l[i].flag);
        let c = lemma_conn(h, counter, map, cs, seen[j]);
        assert(cs[c].who == l[i]);
    }
    assert forall|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).e < p0 && cs[c].who.normal && !raised(h, p1, cs[c].who.flag)
        implies l.contains(cs[c].who) by {
        assert(established(h, counter, map, cs[c]));
        assert(entered(h, cs[c].e, map, cs[c].who));
        assert(seen.contains(cs[c].who));
        let j = choose|j: int| 0 <= j < seen.len() && seen[j] == cs[c].who;
        assert(looked(h, p0, p1, seen[j], flags[j]));
        let p = choose|p: int| #[trigger] looked_at(h, p, p0, p1, seen[j], flags[j]);
        lemma_raised(h, p, p1, cs[c].who.flag);
        assert(live(seen, flags, j));
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).id == seen[j].id;
        assert(visited(seen, flags, l[i]));
        let j2 = choose|j2: int| #[trigger] live(seen, flags, j2) && l[i] == seen[j2];
        let c2 = lemma_conn(h, counter, map, cs, seen[j2]);
        if c2 != c { theorem_ids(h, counter, map, cs, c, c2); }
        assert(l[i] == cs[c].who);
    }
}
/// A connection of `cs` that had not ended before `p0`.
pub open spec fn lively(h: Seq<Ev>, cs: Seq<Conn>, p0: int, m: Who) -> bool {
    !raised(h, p0, m.flag) && exists|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).who == m
}
/// `l` has, once, every connection established before `p0` and not ended before `p1`,
/// and none that had ended before `p0`.
pub open spec fn lists(h: Seq<Ev>, cs: Seq<Conn>, p0: int, p1: int, l: Seq<Who>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).id < (#[trigger] l[j]).id
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] lively(h, cs, p0, l[i])
    &&& forall|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).e < p0 && cs[c].who.normal && !raised(h, p1, cs[c].who.flag)
        ==> l.contains(cs[c].who)
}
/// The reply describes those of `l`, in order, each with the name it had.
pub open spec fn describes(h: Seq<Ev>, op: Op, l: Seq<Who>) -> bool {
    &&& op.reply is Array && op.reply->Array_0.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> shows(h, op.pos.last(), #[trigger] op.reply->Array_0[i], l[i])
}
/// `x` is the description of `m` under the name it had at some moment before `n`.
pub open spec fn shows(h: Seq<Ev>, n: int, x: FV, m: Who) -> bool {
    exists|p: int| 0 <= p <= n && x == FV::Simple(description(m, #[trigger] name_in(h, p, m.lock)))
}

// ---------------------------------------------------------------- names
/// The last SETNAME of the connection of `lock` before `n` is that of `ops[k]`, at `p`.
pub open spec fn named_at(ops: Seq<Op>, k: int, p: int, lock: int) -> bool {
    0 <= k < ops.len() && ops[k].pos.len() > 0 && ops[k].pos.last() == p && ops[k].who.me.lock == lock
        && match ops[k].rq { Rq::SetName(x) => graphic(x), _ => false }
}
pub open spec fn some_name(ops: Seq<Op>, p: int, lock: int) -> bool { exists|k: int| #[trigger] named_at(ops, k, p, lock) }
pub open spec fn last_named(ops: Seq<Op>, p: int, n: int, lock: int) -> bool {
    0 <= p < n && some_name(ops, p, lock) && forall|q: int| p < q < n ==> !#[trigger] some_name(ops, q, lock)
}
/// The name a SETNAME leaves.
pub open spec fn left(n: Seq<u8>) -> Option<Seq<u8>> { if n.len() == 0 { None } else { Some(n) } }

proof fn lemma_setname(h: Seq<Ev>, ops: Seq<Op>, k: int, i: int)
    requires history(h, ops), 0 <= k < ops.len(), 0 <= i < ops[k].pos.len(), h[ops[k].pos[i]] is SetName
    ensures
        ops[k].pos.len() == 1, i == 0,
        ops[k].rq is SetName, graphic(ops[k].rq->SetName_0),
        h[ops[k].pos[i]] == (Ev::SetName { lock: ops[k].who.me.lock, name: left(ops[k].rq->SetName_0) }),
{
    let op = ops[k];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    assert(es[i] == h[op.pos[i]]);
    if let Rq::List(_, _) = op.rq { lemma_walk(op.who.map, es, op.reply); }
}
/// C11: a name is the one the last accepted SETNAME of the same connection left.
pub proof fn lemma_name(h: Seq<Ev>, ops: Seq<Op>, n: int, lock: int)
    requires history(h, ops), 0 <= n <= h.len()
    ensures
        (forall|p: int| 0 <= p < n ==> !#[trigger] some_name(ops, p, lock)) ==> name_in(h, n, lock) is None,
        forall|k: int, p: int| #[trigger] named_at(ops, k, p, lock) && last_named(ops, p, n, lock) ==> name_in(h, n, lock) == left(ops[k].rq->SetName_0),
        match name_in(h, n, lock) { Some(x) => graphic(x) && x.len() > 0, None => true },
    decreases n
{
    if n > 0 {
        lemma_name(h, ops, n - 1, lock);
        let e = h[n - 1];
        if e is SetName {
            assert(made(ops, n - 1));
            let (k, i) = choose|k: int, i: int| #[trigger] is_step(ops, k, i, n - 1);
            lemma_setname(h, ops, k, i);
            if names(e, lock) {
                assert(named_at(ops, k, n - 1, lock));
                assert(some_name(ops, n - 1, lock));
                assert forall|k2: int, p: int| #[trigger] named_at(ops, k2, p, lock) && last_named(ops, p, n, lock)
                    implies name_in(h, n, lock) == left(ops[k2].rq->SetName_0) by {
                    assert(p == n - 1);
                    assert(is_step(ops, k2, ops[k2].pos.len() - 1, n - 1));
                    assert(is_step(ops, k, i, n - 1));
                    assert(k == k2);
                }
            }
        }
        if !names(e, lock) {
            assert(!some_name(ops, n - 1, lock)) by {
                if some_name(ops, n - 1, lock) {
                    let k2 = choose|k2: int| #[trigger] named_at(ops, k2, n - 1, lock);
                    assert(ran(h, ops[k2]));
                    let es = steps(h, ops[k2].pos);
                    assert(es[0] == h[ops[k2].pos[0]]);
                }
            }
            assert forall|k2: int, p: int| #[trigger] named_at(ops, k2, p, lock) && last_named(ops, p, n, lock)
                implies name_in(h, n, lock) == left(ops[k2].rq->SetName_0) by {
                assert(p < n - 1);
                assert(last_named(ops, p, n - 1, lock));
            }
        }
    }
}
/// C11: what CLIENT GETNAME answers.
pub proof fn theorem_name(h: Seq<Ev>, ops: Seq<Op>, g: int)
    requires history(h, ops), 0 <= g < ops.len(), ops[g].rq is GetName
    ensures ({
        let lock = ops[g].who.me.lock;
        let n = ops[g].pos.last();
        let r = or_null(ops[g].reply);
        &&& (forall|p: int| 0 <= p < n ==> !#[trigger] some_name(ops, p, lock)) ==> r is None
        &&& forall|k: int, p: int| #[trigger] named_at(ops, k, p, lock) && last_named(ops, p, n, lock) ==> r == left(ops[k].rq->SetName_0)
    })
{
    let op = ops[g];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    assert(es[0] == h[op.pos[0]]);
    assert(fits(h, op.pos[0]));
    lemma_name(h, ops, op.pos[0], op.who.me.lock);
}
/// C11: CLIENT INFO answers the description of the connection under its name.
pub proof fn theorem_info(h: Seq<Ev>, ops: Seq<Op>, g: int)
    requires history(h, ops), 0 <= g < ops.len(), ops[g].rq is Info
    ensures
        ops[g].reply == FV::Simple(description(ops[g].who.me, name_in(h, ops[g].pos.last(), ops[g].who.me.lock))),
{
    let op = ops[g];
    assert(ran(h, op));
    let es = steps(h, op.pos);
    assert(es[0] == h[op.pos[0]]);
    assert(es.last() == es[0]);
    assert(fits(h, op.pos[0]));
}
/// C08: a request which is answered with an error changes nothing.
pub proof fn theorem_error(q: Rq, a: Asker, es: Seq<Ev>, v: FV)
    requires answer(q, a, es, v), v is Error
    ensures forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Clock
{ }
/// C11: the fields of a description are what it was made of, whatever the name.
pub open spec fn fields(s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len()
{
    let i = space(s, 0);
    if 0 <= i < s.len() { seq![s.subrange(0, i)] + fields(s.subrange(i + 1, s.len() as int)) } else { seq![s] }
}
/// The first space from `i` on.
pub open spec fn space(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() { if s[i] == 32 { i } else { space(s, i + 1) } } else { s.len() as int }
}
pub open spec fn no_space(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 32 }
proof fn lemma_space(a: Seq<u8>, b: Seq<u8>, i: int)
    requires no_space(a), 0 <= i <= a.len()
    ensures space(a + seq![32u8] + b, i) == a.len(), space(a, i) == a.len()
    decreases a.len() - i
{
    let s = a + seq![32u8] + b;
    if i < a.len() { assert(s[i] == a[i]); lemma_space(a, b, i + 1); } else { assert(s[a.len() as int] == 32); }
}
proof fn lemma_field(a: Seq<u8>, b: Seq<u8>)
    requires no_space(a)
    ensures fields(a + seq![32u8] + b) == seq![a] + fields(b), fields(a) == seq![a]
{
    let s = a + seq![32u8] + b;
    lemma_space(a, b, 0);
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(a.len() as int + 1, s.len() as int) =~= b);
}
proof fn lemma_plain(n: nat)
    ensures no_space(dig(n))
    decreases n
{
    if n >= 10 { lemma_plain(n / 10); }
}
pub proof fn theorem_fields(m: Who, name: Option<Seq<u8>>)
    requires
        m.id >= 0, no_space(m.addr), no_space(m.laddr), no_space(m.fd),
        match name { Some(x) => graphic(x), None => true },
    ensures
        fields(description(m, name)) == seq![
            seq![105u8, 100, 61] + dig(m.id as nat),
            seq![97u8, 100, 100, 114, 61] + m.addr,
            seq![108u8, 97, 100, 100, 114, 61] + m.laddr,
            seq![102u8, 100, 61] + m.fd,
            seq![110u8, 97, 109, 101, 61] + (match name { Some(x) => x, None => Seq::empty() }),
        ],
{
    let a = seq![105u8, 100, 61] + dig(m.id as nat);
    let b = seq![97u8, 100, 100, 114, 61] + m.addr;
    let c = seq![108u8, 97, 100, 100, 114, 61] + m.laddr;
    let d = seq![102u8, 100, 61] + m.fd;
    let e = seq![110u8, 97, 109, 101, 61] + (match name { Some(x) => x, None => Seq::empty() });
    lemma_plain(m.id as nat);
    let e1 = d + seq![32u8] + e;
    let e2 = c + seq![32u8] + e1;
    let e3 = b + seq![32u8] + e2;
    let s = a + seq![32u8] + e3;
    assert(description(m, name) =~= s);
    lemma_field(a, e3);
    lemma_field(b, e2);
    lemma_field(c, e1);
    lemma_field(d, e);
    lemma_field(e, Seq::empty());
    assert(fields(s) =~= seq![a, b, c, d, e]);
}

/// There are histories: a SET, a SETNAME and a GET.
proof fn example() -> (r: (Seq<Ev>, Seq<Op>))
    ensures history(r.0, r.1), r.1.len() == 3
{
    let me = Who { id: 0, lock: 1, flag: 2, addr: Seq::empty(), laddr: Seq::empty(), fd: Seq::empty(), normal: true };
    let who = Asker { me, db: 0, map: 0 };
    let (k, b, n) = (seq![107u8], seq![98u8], seq![110u8]);
    let it = Item { bytes: b, until: None };
    let h = seq![
        Ev::Tx { db: 0, key: k, before: None, after: Some(it) },
        Ev::SetName { lock: 1, name: Some(n) },
        Ev::Clock { t: 7 },
        Ev::Tx { db: 0, key: k, before: Some(it), after: Some(it) },
    ];
    let a = Op { rq: Rq::Set(k, b, None), who, pos: seq![0], reply: FV::Simple(w_ok()) };
    let c = Op { rq: Rq::SetName(n), who, pos: seq![1], reply: FV::Simple(w_ok()) };
    let d = Op { rq: Rq::Get(k), who, pos: seq![2, 3], reply: FV::Bulk(b) };
    let ops = seq![a, c, d];
    reveal_with_fuel(under, 5);
    reveal_with_fuel(name_in, 5);
    assert(steps(h, a.pos) =~= seq![h[0]]);
    assert(steps(h, c.pos) =~= seq![h[1]]);
    assert(steps(h, d.pos) =~= seq![h[2], h[3]]);
    assert(ran(h, a) && ran(h, c) && ran(h, d));
    assert(is_step(ops, 0, 0, 0) && is_step(ops, 1, 0, 1) && is_step(ops, 2, 0, 2) && is_step(ops, 2, 1, 3));
    assert(made(ops, 0) && made(ops, 1) && made(ops, 3));
    assert(fits(h, 0) && fits(h, 1) && fits(h, 2) && fits(h, 3));
    (h, ops)
}
} // verus!
