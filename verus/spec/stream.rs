//! What a connection takes from the bytes of a client (C01).
use vstd::prelude::*;
use super::resp::*;
use super::resp_lemmas::*;
verus! {

/// What taking the first request off the bytes of a client gives. `closed`: the
/// client ended the stream itself. `d`: the nesting limit.
pub enum Taken {
    Request(FV, Seq<u8>),
    Clean,
    Fault,
}
pub open spec fn take(s: Seq<u8>, closed: bool, d: nat) -> Taken {
    match scan(s, 0, d) {
        Sc::At(e) => match dec(s.subrange(0, e), 0) {
            Some((v, q)) => Taken::Request(v, s.subrange(e, s.len() as int)),
            None => Taken::Fault,
        },
        Sc::Inc => if s.len() == 0 && closed { Taken::Clean } else { Taken::Fault },
        Sc::Bad => Taken::Fault,
    }
}

/// All the requests of a stream, and whether it ends cleanly.
pub open spec fn requests(s: Seq<u8>, closed: bool, d: nat) -> (Seq<FV>, bool)
    decreases s.len()
{
    match take(s, closed, d) {
        Taken::Request(v, rest) => if rest.len() < s.len() {
            let (vs, end) = requests(rest, closed, d);
            (seq![v] + vs, end)
        } else { (Seq::empty(), false) },
        Taken::Clean => (Seq::empty(), true),
        Taken::Fault => (Seq::empty(), false),
    }
}

/// The encodings of several values, one after the other.
pub open spec fn stream(vs: Seq<FV>) -> Seq<u8>
    decreases vs.len()
{
    if vs.len() == 0 { Seq::empty() } else { enc(vs[0]) + stream(vs.drop_first()) }
}
pub open spec fn all_encodable(vs: Seq<FV>, d: nat) -> bool {
    forall|i: int| 0 <= i < vs.len() ==> encodable(#[trigger] vs[i], d)
}

pub proof fn lemma_take_first(v: FV, tail: Seq<u8>, closed: bool, d: nat)
    requires encodable(v, d)
    ensures take(enc(v) + tail, closed, d) == Taken::Request(v, tail)
{
    let s = enc(v) + tail;
    theorem_roundtrip(v, tail, d);
    let e = enc(v).len() as int;
    assert(s.subrange(0, e) =~= enc(v) + Seq::<u8>::empty());
    theorem_roundtrip(v, Seq::empty(), d);
    assert(s.subrange(e, s.len() as int) =~= tail);
}

/// C01: a stream of encoded requests gives exactly those requests, in order, and
/// ends cleanly; followed by a strict part of a request, it gives the same ones and
/// ends with a fault.
pub proof fn theorem_requests(vs: Seq<FV>, last: FV, n: int, d: nat)
    requires all_encodable(vs, d), encodable(last, d), 0 < n < enc(last).len()
    ensures
        requests(stream(vs), true, d) == (vs, true),
        requests(stream(vs) + enc(last).subrange(0, n), true, d) == (vs, false),
    decreases vs.len()
{
    let cut = enc(last).subrange(0, n);
    if vs.len() == 0 {
        theorem_strict_prefix(last, n, d);
        assert(stream(vs) + cut =~= cut);
        theorem_strict_prefix(last, 0, d);
        assert(enc(last).subrange(0, 0) =~= Seq::<u8>::empty());
        assert(requests(stream(vs), true, d).0 =~= vs);
        assert(requests(cut, true, d).0 =~= vs);
    } else {
        let rest = vs.drop_first();
        assert forall|i: int| 0 <= i < rest.len() implies encodable(#[trigger] rest[i], d) by {
            assert(rest[i] == vs[i + 1]);
        }
        assert(encodable(vs[0], d));
        theorem_requests(rest, last, n, d);
        lemma_enc_nonempty(vs[0]);
        lemma_take_first(vs[0], stream(rest), true, d);
        assert(requests(stream(vs), true, d).0 =~= vs);
        lemma_take_first(vs[0], stream(rest) + cut, true, d);
        assert(stream(vs) + cut =~= enc(vs[0]) + (stream(rest) + cut));
        assert(requests(stream(vs) + cut, true, d).0 =~= vs);
    }
}

} // verus!
