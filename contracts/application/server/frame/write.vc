keep Encoder

bottom {{{
proof fn lemma_step_n(s: Seq<u8>, a: Seq<FV>, i: nat)
    requires i < a.len()
    ensures s + enc_n(a, i + 1) == s + enc_n(a, i) + enc(a[i as int])
{ assert(s + enc_n(a, i + 1) =~= s + enc_n(a, i) + enc(a[i as int])); }
proof fn lemma_step_m(s: Seq<u8>, a: Seq<(FV, FV)>, i: nat)
    requires i < a.len()
    ensures s + enc_m(a, i + 1) == s + enc_m(a, i) + enc(a[i as int].0) + enc(a[i as int].1)
{ assert(s + enc_m(a, i + 1) =~= s + enc_m(a, i) + enc(a[i as int].0) + enc(a[i as int].1)); }
proof fn lemma_none(s: Seq<u8>, a: Seq<FV>, m: Seq<(FV, FV)>)
    ensures s + enc_n(a, 0) == s, s + enc_m(m, 0) == s
{ assert(s + enc_n(a, 0) =~= s); assert(s + enc_m(m, 0) =~= s); }
/// An encoding, piece by piece.
proof fn lemma_parts(s0: Seq<u8>, v: FV)
    ensures
        match v {
            FV::Simple(t) => s0 + enc(v) == s0 + seq![43u8] + flat_text(t) + eol(),
            FV::Error(t) => s0 + enc(v) == s0 + seq![45u8] + flat_text(t) + eol(),
            FV::Integer(n) => s0 + enc(v) == s0 + seq![58u8] + dig(n as nat) + eol(),
            FV::Null => s0 + enc(v) == s0 + seq![36u8, 45u8, 49u8, 13u8, 10u8],
            FV::Bulk(t) => s0 + enc(v) == s0 + seq![36u8] + dig(t.len()) + eol() + t + eol(),
            FV::Array(a) => s0 + enc(v) == s0 + seq![42u8] + dig(a.len()) + eol() + enc_n(a, a.len()),
            FV::Map(m) => s0 + enc(v) == s0 + seq![37u8] + dig(m.len()) + eol() + enc_m(m, m.len()),
        }
{
    match v {
        FV::Simple(t) => assert(s0 + enc(v) =~= s0 + seq![43u8] + flat_text(t) + eol()),
        FV::Error(t) => assert(s0 + enc(v) =~= s0 + seq![45u8] + flat_text(t) + eol()),
        FV::Integer(n) => assert(s0 + enc(v) =~= s0 + seq![58u8] + dig(n as nat) + eol()),
        FV::Null => assert(s0 + enc(v) =~= s0 + seq![36u8, 45u8, 49u8, 13u8, 10u8]),
        FV::Bulk(t) => assert(s0 + enc(v) =~= s0 + seq![36u8] + dig(t.len()) + eol() + t + eol()),
        FV::Array(a) => assert(s0 + enc(v) =~= s0 + seq![42u8] + dig(a.len()) + eol() + enc_n(a, a.len())),
        FV::Map(m) => assert(s0 + enc(v) =~= s0 + seq![37u8] + dig(m.len()) + eol() + enc_m(m, m.len())),
    }
}
}}}
top {{{
#[allow(unused_imports)] use crate::shim::monoio::io::part;
use crate::application::server::frame::{fv, fvs, fvm, lemma_fv_array, lemma_fv_map};
#[allow(unused_imports)] use crate::shim::monoio::buf::IoBufSlice;
}}}

impl-extra Encoder as AsyncWriteRent {{{
    open spec fn sent(&self) -> Seq<u8> { self.0@ }
    open spec fn held(&self) -> nat { 0 }
    open spec fn room(&self, n: nat) -> bool { true }
    open spec fn whole(&self) -> bool { true }
}}}

fn write_decimal(buf_w, val) -> r [C03] {{{
    requires old(buf_w).whole()
    ensures
        final(buf_w).whole(), r is Ok,
        final(buf_w).sent() == old(buf_w).sent() + dig(val as nat) + eol(),
}}}
fn write_line(buf_w, val) -> r [C03] {{{
    requires old(buf_w).whole()
    ensures
        final(buf_w).whole(), r is Ok,
        final(buf_w).sent() == old(buf_w).sent() + flat_text(val@) + eol(),
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 for-iter {{{
    invariant
        __it0.s@ == val@, 0 <= __it0.i <= val@.len(),
        line@ == flat_text(val@.subrange(0, __it0.i as int)),
    ensures __it0.i == val@.len()
    decreases val@.len() - __it0.i
}}}
loop-tail 0 {{{
    proof { assert(line@ =~= flat_text(val@.subrange(0, __it0.i as int))); }
}}}

fn write_value(buf_w, frame) -> r [C03] {{{
    requires old(buf_w).whole()
    ensures
        final(buf_w).whole(), r is Ok,
        final(buf_w).sent() == old(buf_w).sent() + enc(fv(*frame)),
    decreases *frame
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]

head {{{
    broadcast use {lemma_fv_array, lemma_fv_map};
    let ghost s0 = buf_w.sent();
    proof { lemma_parts(s0, fv(*frame)); }
}}}
loop 0 for-iter {{{
    invariant
        __it0.m == *val, 0 <= __it0.i <= val@.len(),
        buf_w.whole(),
        buf_w.sent() == old(buf_w).sent() + seq![37u8] + dig(val@.len() as nat) + eol() + enc_m(fvm(val@), __it0.i as nat),
    ensures __it0.i == val@.len()
    decreases val@.len() - __it0.i
}}}
loop-head 0 {{{
    proof {
        if __it0.i < val@.len() { lemma_step_m(s0 + seq![37u8] + dig(val@.len() as nat) + eol(), fvm(val@), __it0.i as nat); }
    }
}}}
loop-head 1 {{{
    proof {
        if __it1.i < val@.len() { lemma_step_n(s0 + seq![42u8] + dig(val@.len() as nat) + eol(), fvs(val@), __it1.i as nat); }
    }
}}}
loop 1 for-iter {{{
    invariant
        __it1.s@ == val@, 0 <= __it1.i <= val@.len(),
        buf_w.whole(),
        buf_w.sent() == old(buf_w).sent() + seq![42u8] + dig(val@.len() as nat) + eol() + enc_n(fvs(val@), __it1.i as nat),
    ensures __it1.i == val@.len()
    decreases val@.len() - __it1.i
}}}

fn Encoder as AsyncWriteRent::write(self, buf) -> r [C03] {{{
}}}
fn Encoder as AsyncWriteRent::writev(self, buf) -> r [C03] {{{
}}}
fn Encoder as AsyncWriteRent::flush(self) -> r [C03] {{{
}}}
fn Encoder as AsyncWriteRent::shutdown(self) -> r [C03] {{{
}}}

fn write_frame(buf_w, frame) -> r [C03] {{{
    requires old(buf_w).room(enc(fv(*frame)).len())
    ensures
        final(buf_w).whole() == old(buf_w).whole(),
        r is Ok ==> final(buf_w).sent() == old(buf_w).sent() + enc(fv(*frame)) && final(buf_w).held() == 0,
        r is Err ==> part(old(buf_w).sent(), enc(fv(*frame)), final(buf_w).sent()),
}}}
