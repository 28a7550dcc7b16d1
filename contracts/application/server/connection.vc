keep ReadConnection WriteConnection

top {{{
use crate::application::server::frame::{fv, readable, MAX_DEPTH};
#[allow(unused_imports)] use crate::shim::monoio::io::{AsyncReadRent as _, AsyncWriteRent as _};
}}}
bottom {{{
impl vstd::std_specs::convert::FromSpecImpl<super::frame::Error> for crate::shim::anyhow::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: super::frame::Error) -> crate::shim::anyhow::Error { crate::shim::anyhow::error_() }
}
impl From<super::frame::Error> for crate::shim::anyhow::Error {
    #[verifier::external_body]
    fn from(e: super::frame::Error) -> crate::shim::anyhow::Error { unimplemented!() }
}
/// What more bytes change.
proof fn lemma_more(b: Seq<u8>, x: Seq<u8>, d: nat)
    ensures
        scan(b, 0, d) is At ==> {
            let e = scan(b, 0, d)->At_0;
            0 < e <= b.len() && scan(b + x, 0, d) == scan(b, 0, d) && (b + x).subrange(0, e) == b.subrange(0, e)
                && (b + x).subrange(e, (b + x).len() as int) == b.subrange(e, b.len() as int) + x
        },
        scan(b, 0, d) is Bad ==> scan(b + x, 0, d) is Bad,
{
    if scan(b, 0, d) is At {
        let e = scan(b, 0, d)->At_0;
        lemma_scan_bounds(b, 0, d);
        lemma_scan_agree(b, b + x, 0, d);
        assert((b + x).subrange(0, e) =~= b.subrange(0, e));
        assert((b + x).subrange(e, (b + x).len() as int) =~= b.subrange(e, b.len() as int) + x);
    }
    if scan(b, 0, d) is Bad { lemma_scan_bad(b, b + x, 0, d); }
}
/// The bytes of the first request are a request.
proof fn lemma_first(b: Seq<u8>, d: nat)
    ensures
        scan(b, 0, d) is At ==> {
            let e = scan(b, 0, d)->At_0;
            0 < e <= b.len() && readable(b.subrange(0, e), 0) && scan(b.subrange(0, e), 0, d) == scan(b, 0, d)
        }
{
    if scan(b, 0, d) is At {
        let e = scan(b, 0, d)->At_0;
        lemma_scan_bounds(b, 0, d);
        lemma_scan_agree(b, b.subrange(0, e), 0, d);
        assert(scan(b.subrange(0, e), 0, d) is At);
    }
}
}}}
impl-extra ReadConnection {{{
    /// The bytes of the client that no request was taken from yet.
    pub closed spec fn pending(&self) -> Seq<u8> { self.buffer@ + self.stream_r.incoming() }
    pub closed spec fn buffered(&self) -> Seq<u8> { self.buffer@ }
    /// Which connection it reads from.
    pub closed spec fn of(&self) -> int { self.stream_r.conn() }
    /// The stream ends with a fault.
    pub closed spec fn broken(&self) -> bool { self.stream_r.faulty() }
}}}
impl-extra WriteConnection {{{
    /// Which connection it writes to.
    pub closed spec fn of(&self) -> int { self.stream_w.conn() }
    pub closed spec fn sent(&self) -> Seq<u8> { self.stream_w.sent() }
    pub closed spec fn held(&self) -> nat { self.stream_w.held() }
}}}

fn ReadConnection::read_frame(self) -> r [C01] {{{
    ensures
        final(self).broken() == old(self).broken(),
        match take(old(self).pending(), !old(self).broken(), MAX_DEPTH as nat) {
            Taken::Request(v, rest) => r is Ok && r->Ok_0 is Some && fv(r->Ok_0->Some_0) == v && final(self).pending() == rest,
            Taken::Clean => r is Ok && r->Ok_0 is None,
            Taken::Fault => r is Err,
        }
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
}}}
loop 0 loop {{{
    invariant
        self.broken() == old(self).broken(),
        self.pending() == old(self).pending(),
    decreases self.stream_r.incoming().len()
}}}
loop-head 0 {{{
    proof {
        lemma_more(self.buffer@, self.stream_r.incoming(), MAX_DEPTH as nat);
        assert(self.stream_r.incoming().len() == 0 ==> self.buffer@ + self.stream_r.incoming() =~= self.buffer@);
    }
    let ghost b0 = self.buffer@;
    let ghost i0 = self.stream_r.incoming();
}}}
loop-tail 0 {{{
    proof { assert(self.buffer@ + self.stream_r.incoming() =~= b0 + i0); }
}}}

fn ReadConnection::parse_frame(self) -> r [C01] {{{
    ensures
        final(self).stream_r == old(self).stream_r,
        match scan(old(self).buffered(), 0, MAX_DEPTH as nat) {
            Sc::At(e) => match dec(old(self).buffered().subrange(0, e), 0) {
                Some((v, q)) => r is Ok && r->Ok_0 is Some && fv(r->Ok_0->Some_0) == v
                    && final(self).buffered() == old(self).buffered().subrange(e, old(self).buffered().len() as int),
                None => r is Err,
            },
            Sc::Inc => r is Ok && r->Ok_0 is None && final(self).buffered() == old(self).buffered(),
            Sc::Bad => r is Err,
        }
}}}
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
    proof { lemma_first(self.buffer@, MAX_DEPTH as nat); }
}}}
fn WriteConnection::write_frame(self, frame) -> r [C03 C09] {{{
    requires old(self).held() == 0
    ensures
        said(fv(*frame)),
        r is Ok ==> final(self).sent() == old(self).sent() + enc(fv(*frame)) && final(self).held() == 0,
        r is Err ==> crate::shim::monoio::io::part(old(self).sent(), enc(fv(*frame)), final(self).sent()),
}}}
fn WriteConnection::new(socket, buf_size) -> r [C01 C03 C09] {{{
    requires buf_size < 0x80_0000_0000_0000
    ensures
        r.0.held() == 0, r.0.sent() == Seq::<u8>::empty(),
        r.1.pending() == socket.inbound(), r.1.broken() == socket.faulty(),
        r.0.of() == socket.conn(), r.1.of() == socket.conn(),
}}}
fn ReadConnection::into_inner(self) -> r [C04] {{{
    ensures r.conn() == self.of()
}}}
fn WriteConnection::into_inner(self) -> r [C04] {{{
    ensures r.conn() == self.of()
}}}
fn WriteConnection::reunite(self, read) -> r [C04] {{{
    requires self.of() == read.of()
    ensures r.conn() == self.of()
}}}
