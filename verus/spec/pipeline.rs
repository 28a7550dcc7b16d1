//! The requests of one connection, from its bytes to its replies (C09).
use vstd::prelude::*;
use super::resp::*;
#[allow(unused_imports)] use crate::shim::monoio::io::part;
use super::request::*;
use super::reply::*;
use super::stream::*;
use super::world::*;
verus! {

/// `vs` are the answers to `qs`, each to its own request: the steps of the `i`-th one are
/// those from `at[i]` to `at[i + 1]`.
pub open spec fn replies(qs: Seq<FV>, a: Asker, log: Seq<Ev>, at: Seq<int>, vs: Seq<FV>) -> bool {
    &&& vs.len() == qs.len()
    &&& at.len() == qs.len() + 1
    &&& forall|i: int| 0 <= i < qs.len() ==> #[trigger] reply_at(qs, a, log, at, vs, i)
}
pub open spec fn reply_at(qs: Seq<FV>, a: Asker, log: Seq<Ev>, at: Seq<int>, vs: Seq<FV>, i: int) -> bool {
    &&& 0 <= at[i] <= at[i + 1] <= log.len()
    &&& match command(qs[i]) { Some(c) => answer(c, a, log.subrange(at[i], at[i + 1]), vs[i]), None => false }
}
/// All of `qs` were executed one after the other, with nothing in between, and one reply
/// sent for each of them, in the same order.
pub open spec fn served(qs: Seq<FV>, a: Asker, l0: Seq<Ev>, l1: Seq<Ev>, s0: Seq<u8>, s1: Seq<u8>) -> bool {
    exists|at: Seq<int>, vs: Seq<FV>| #[trigger] replies(qs, a, l1, at, vs)
        && at[0] == l0.len() && at[qs.len() as int] == l1.len() && l0.is_prefix_of(l1) && s1 == s0 + stream(vs)
}
/// The first ones of `qs` were, and the next one is the last one: it is not a command, and
/// nothing was done for it, or the connection failed while it was answered.
pub open spec fn halted(qs: Seq<FV>, a: Asker, l0: Seq<Ev>, l1: Seq<Ev>, s0: Seq<u8>, s1: Seq<u8>) -> bool {
    exists|n: int, l: Seq<Ev>, s: Seq<u8>| #[trigger] served(qs.take(n), a, l0, l, s0, s) && 0 <= n < qs.len()
        && match command(qs[n]) {
            None => l1 == l && s1 == s,
            Some(c) => answered(c, a, l, l1, s, s1, false),
        }
}
pub proof fn lemma_stream_push(vs: Seq<FV>, v: FV)
    ensures stream(vs.push(v)) == stream(vs) + enc(v)
    decreases vs.len()
{
    if vs.len() == 0 {
        assert(vs.push(v).drop_first() =~= vs);
        assert(stream(vs.push(v)) =~= stream(vs) + enc(v)) by { assert(vs.push(v)[0] == v); }
    } else {
        lemma_stream_push(vs.drop_first(), v);
        assert(vs.push(v).drop_first() =~= vs.drop_first().push(v));
        assert(vs.push(v)[0] == vs[0]);
        assert(stream(vs.push(v)) =~= stream(vs) + enc(v));
    }
}
/// None yet.
pub proof fn lemma_none(qs: Seq<FV>, a: Asker, l: Seq<Ev>, s: Seq<u8>)
    ensures served(qs.take(0), a, l, l, s, s)
{
    assert(s + stream(Seq::<FV>::empty()) =~= s);
    assert(qs.take(0) =~= Seq::<FV>::empty());
    assert(replies(qs.take(0), a, l, seq![l.len() as int], Seq::<FV>::empty()));
}
/// One more.
pub proof fn lemma_next(qs: Seq<FV>, n: int, a: Asker, l0: Seq<Ev>, l: Seq<Ev>, l1: Seq<Ev>, s0: Seq<u8>, s: Seq<u8>, s1: Seq<u8>)
    requires
        0 <= n < qs.len(),
        served(qs.take(n), a, l0, l, s0, s),
        command(qs[n]) is Some,
        answered(command(qs[n])->0, a, l, l1, s, s1, true),
    ensures served(qs.take(n + 1), a, l0, l1, s0, s1)
{
    let c = command(qs[n])->0;
    let q0 = qs.take(n);
    let q1 = qs.take(n + 1);
    let (at, vs) = choose|at: Seq<int>, vs: Seq<FV>| #[trigger] replies(q0, a, l, at, vs)
        && at[0] == l0.len() && at[q0.len() as int] == l.len() && l0.is_prefix_of(l) && s == s0 + stream(vs);
    let v = choose|v: FV| #[trigger] said(v) && l.is_prefix_of(l1) && answer(c, a, l1.subrange(l.len() as int, l1.len() as int), v)
        && (if true { s1 == s + enc(v) } else { part(s, enc(v), s1) });
    lemma_stream_push(vs, v);
    assert(s1 =~= s0 + stream(vs.push(v)));
    let at2 = at.push(l1.len() as int);
    assert forall|i: int| 0 <= i < q1.len() implies #[trigger] reply_at(q1, a, l1, at2, vs.push(v), i) by {
        if i < n {
            assert(reply_at(q0, a, l, at, vs, i));
            assert(q0[i] == q1[i]);
            assert(l1.subrange(at[i], at[i + 1]) =~= l.subrange(at[i], at[i + 1]));
        } else {
            assert(at2[i] == l.len() && at2[i + 1] == l1.len());
        }
    }
    assert(replies(q1, a, l1, at2, vs.push(v)));
}

/// C09: whatever a client sends, what its connection does is: the first requests of its
/// bytes are executed one after the other, in the order in which they were sent, with
/// one reply each, which is the answer to that request; nothing else is sent or done. The
/// first request that is rejected is the last one, and nothing is done for it.
/// `fed` is what the reading task put in the channel, `got` what the answering task took
/// out of it, and `ok` says whether that task ended because nothing more was coming.
pub proof fn theorem_pipeline(bytes: Seq<u8>, closed: bool, d: nat, fed: Seq<FV>, got: Seq<FV>, a: Asker, l1: Seq<Ev>, s1: Seq<u8>, ok: bool) -> (r: (int, Seq<int>, Seq<FV>))
    requires
        fed.is_prefix_of(requests(bytes, closed, d).0),
        got.is_prefix_of(fed),
        ok ==> served(got, a, Seq::empty(), l1, Seq::empty(), s1),
        !ok ==> halted(got, a, Seq::empty(), l1, Seq::empty(), s1),
    ensures ({
        let qs = requests(bytes, closed, d).0;
        let (n, at, vs) = r;
        &&& 0 <= n <= got.len() <= qs.len()
        &&& replies(qs.take(n), a, l1, at, vs)
        &&& at[0] == 0
        &&& ok ==> n == got.len() && s1 == stream(vs) && at[n] == l1.len()
        &&& !ok ==> n < got.len()
        &&& !ok && command(qs[n]) is None ==> s1 == stream(vs) && at[n] == l1.len()
        // the connection failed: what was sent is the replies, and a part of the next one
        &&& !ok && command(qs[n]) is Some ==> answered(command(qs[n])->0, a, l1.take(at[n]), l1, stream(vs), s1, false)
    })
{
    let qs = requests(bytes, closed, d).0;
    let e = Seq::<Ev>::empty();
    let z = Seq::<u8>::empty();
    let (n, l, s) = if ok { (got.len() as int, l1, s1) } else {
        choose|n: int, l: Seq<Ev>, s: Seq<u8>| #[trigger] served(got.take(n), a, e, l, z, s) && 0 <= n < got.len()
            && match command(got[n]) {
                None => l1 == l && s1 == s,
                Some(c) => answered(c, a, l, l1, s, s1, false),
            }
    };
    assert(got.take(got.len() as int) =~= got);
    assert(served(got.take(n), a, e, l, z, s));
    let (at, vs) = choose|at: Seq<int>, vs: Seq<FV>| #[trigger] replies(got.take(n), a, l, at, vs)
        && at[0] == e.len() && at[got.take(n).len() as int] == l.len() && e.is_prefix_of(l) && s == z + stream(vs);
    assert(qs.take(n) =~= got.take(n));
    assert(z + stream(vs) =~= stream(vs));
    assert(l.is_prefix_of(l1));
    assert forall|i: int| 0 <= i < n implies #[trigger] reply_at(qs.take(n), a, l1, at, vs, i) by {
        assert(reply_at(got.take(n), a, l, at, vs, i));
        assert(l1.subrange(at[i], at[i + 1]) =~= l.subrange(at[i], at[i + 1]));
    }
    if !ok { assert(qs[n] == got[n]); }
    (n, at, vs)
}
} // verus!
