keep Frame Error MAX_DEPTH
mods write

bottom {{{
/// `==`: of arrays and maps, nothing is said.
pub uninterp spec fn alike(a: Frame, b: Frame) -> bool;
impl PartialEq for Frame {
    #[verifier::external_body]
    fn eq(&self, o: &Frame) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Frame {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Frame) -> bool {
        match (*self, *o) {
            (Frame::Simple(a), Frame::Simple(b)) => a@ =~= b@,
            (Frame::Error(a), Frame::Error(b)) => a@ =~= b@,
            (Frame::Integer(a), Frame::Integer(b)) => a == b,
            (Frame::Bulk(a), Frame::Bulk(b)) => a@ =~= b@,
            (Frame::Null, Frame::Null) => true,
            (Frame::Array(_), Frame::Array(_)) => alike(*self, *o),
            (Frame::Map(_), Frame::Map(_)) => alike(*self, *o),
            _ => false,
        }
    }
}
/// The value of a frame.
pub open spec fn fv(f: Frame) -> FV
    decreases f
{
    match f {
        Frame::Simple(t) => FV::Simple(t@),
        Frame::Error(t) => FV::Error(t@),
        Frame::Integer(n) => FV::Integer(n),
        Frame::Bulk(b) => FV::Bulk(b@),
        Frame::Null => FV::Null,
        Frame::Array(v) => FV::Array(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { fv(v@[i]) } else { FV::Null })),
        Frame::Map(m) => FV::Map(Seq::new(m.e@.len(), |i: int| if 0 <= i < m.e@.len() { (fv(m.e@[i].0), fv(m.e@[i].1)) } else { (FV::Null, FV::Null) })),
    }
}
pub open spec fn fvs(v: Seq<Frame>) -> Seq<FV> { v.map_values(|f: Frame| fv(f)) }
pub open spec fn fvm(m: Seq<(Frame, Frame)>) -> Seq<(FV, FV)> { m.map_values(|e: (Frame, Frame)| (fv(e.0), fv(e.1))) }

pub broadcast proof fn lemma_fv_array(v: Vec<Frame>)
    ensures #[trigger] fv(Frame::Array(v)) == FV::Array(fvs(v@))
{
    assert(fv(Frame::Array(v))->Array_0 =~= fvs(v@));
}
pub broadcast proof fn lemma_fv_map(m: crate::shim::indexmap::IndexMap<Frame, Frame>)
    ensures #[trigger] fv(Frame::Map(m)) == FV::Map(fvm(m@))
{
    assert(fv(Frame::Map(m))->Map_0 =~= fvm(m@));
}
/// The equality of frames only depends on their values.
#[verifier::external_body]
pub broadcast proof fn axiom_key_eq(a: Frame, b: Frame)
    ensures #[trigger] crate::shim::indexmap::key_eq(a, b) == same_key(fv(a), fv(b))
{ }
impl crate::shim::std::mem::Kinds for Frame { open spec fn kind_(&self) -> int { crate::spec::resp::variant(fv(*self)) } }
impl crate::shim::std::hash::FedVec for Frame {
    open spec fn fed_vec(s: Seq<Frame>) -> Seq<Fed> { seq![Fed::Num(s.len() as int)] + hashed_n(fvs(s), s.len()) }
}
/// Bulk strings are equal when their bytes are.
pub broadcast proof fn lemma_same_bulk(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] same_key(FV::Bulk(a), FV::Bulk(b)) == (a == b)
{ }
/// Inserting different keys keeps the entries.
pub broadcast proof fn lemma_puts(s: Seq<(Frame, Frame)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> !crate::shim::indexmap::key_eq(#[trigger] s[i].0, #[trigger] s[j].0)
    ensures #[trigger] crate::shim::indexmap::puts(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_puts(s.drop_last());
        lemma_put(s.drop_last(), s.last().0, s.last().1);
        assert(s.drop_last().push((s.last().0, s.last().1)) =~= s);
    } else {
        assert(crate::shim::indexmap::puts(s) =~= s);
    }
}
proof fn lemma_put(s: Seq<(Frame, Frame)>, k: Frame, v: Frame)
    requires forall|i: int| 0 <= i < s.len() ==> !crate::shim::indexmap::key_eq(#[trigger] s[i].0, k)
    ensures crate::shim::indexmap::put(s, k, v) == s.push((k, v))
    decreases s.len()
{
    if s.len() > 0 {
        assert(!crate::shim::indexmap::key_eq(s[0].0, k));
        assert forall|i: int| 0 <= i < s.drop_first().len() implies !crate::shim::indexmap::key_eq(#[trigger] s.drop_first()[i].0, k) by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_put(s.drop_first(), k, v);
        assert(crate::shim::indexmap::put(s, k, v) =~= s.push((k, v)));
    } else {
        assert(crate::shim::indexmap::put(s, k, v) =~= s.push((k, v)));
    }
}
pub broadcast group group_keys { axiom_key_eq, lemma_same_bulk, lemma_puts }
pub broadcast proof fn lemma_fvm_put(m: Seq<(Frame, Frame)>, k: Frame, v: Frame)
    ensures #[trigger] fvm(crate::shim::indexmap::put(m, k, v)) == map_put(fvm(m), fv(k), fv(v))
    decreases m.len()
{
    if m.len() == 0 {
        assert(fvm(seq![(k, v)]) =~= seq![(fv(k), fv(v))]);
    } else {
        axiom_key_eq(m[0].0, k);
        lemma_fvm_put(m.drop_first(), k, v);
        assert(fvm(m).drop_first() =~= fvm(m.drop_first()));
        assert(fvm(crate::shim::indexmap::put(m, k, v)) =~= map_put(fvm(m), fv(k), fv(v)));
    }
}

pub broadcast proof fn lemma_fvs_push(s: Seq<Frame>, f: Frame)
    ensures #[trigger] fvs(s.push(f)) == fvs(s).push(fv(f))
{
    assert(fvs(s.push(f)) =~= fvs(s).push(fv(f)));
}
pub broadcast proof fn lemma_fvs_empty(s: Seq<Frame>)
    requires s.len() == 0
    ensures #[trigger] fvs(s) == Seq::<FV>::empty()
{
    assert(fvs(s) =~= Seq::<FV>::empty());
}
pub broadcast proof fn lemma_fvm_empty(s: Seq<(Frame, Frame)>)
    requires s.len() == 0
    ensures #[trigger] fvm(s) == Seq::<(FV, FV)>::empty()
{
    assert(fvm(s) =~= Seq::<(FV, FV)>::empty());
}
pub broadcast group group_fv {
    lemma_fv_array, lemma_fv_map, lemma_fvm_put, lemma_fvs_push, lemma_fvs_empty, lemma_fvm_empty,
}

/// There is a message at `p`.
pub open spec fn readable(s: Seq<u8>, p: int) -> bool {
    exists|d: nat| #[trigger] scan(s, p, d) is At
}

/// The deepest recursion of the recogniser fits in a stack.
pub proof fn lemma_max_depth()
    ensures MAX_DEPTH <= nesting_cap()
{ }

impl vstd::std_specs::convert::FromSpecImpl<crate::shim::anyhow::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::shim::anyhow::Error) -> Error { Error::Other(v) }
}
impl From<crate::shim::anyhow::Error> for Error {
    fn from(e: crate::shim::anyhow::Error) -> (r: Error)
        ensures r is Other
    { Error::Other(e) }
}
}}}

impl-extra Frame as Hash {{{
    open spec fn fed(&self) -> Seq<Fed> { hashed(fv(*self)) }
}}}
fn Frame as Hash::hash(self, ra_expand_state) [C02] {{{
}}}
head {{{
    broadcast use {lemma_fv_array, lemma_fv_map};
}}}

fn Frame::check(src) -> r [C01 C02] {{{
    requires old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match scan(old(src).inner.data(), old(src).pos as int, MAX_DEPTH as nat) {
            Sc::At(e) => r is Ok && final(src).pos == e,
            Sc::Inc => r is Err && r->Err_0 is Incomplete,
            Sc::Bad => r is Err && r->Err_0 is Other,
        }
}}}
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
    proof { lemma_max_depth(); }
}}}

fn Frame::check_nested(src, depth) -> r [C01 C02] {{{
    requires old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match scan(old(src).inner.data(), old(src).pos as int, depth as nat) {
            Sc::At(e) => r is Ok && final(src).pos == e,
            Sc::Inc => r is Err && r->Err_0 is Incomplete,
            Sc::Bad => r is Err && r->Err_0 is Other,
        }
    decreases depth
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
    let ghost data = src.inner.data();
    let ghost p0 = src.pos as int;
    let ghost d0 = depth as nat;
    proof { lemma_num_bounds(data, p0 + 1); }
}}}
loop 0 for-range {{{
    invariant
        src.inner == old(src).inner, src.pos <= data.len(),
        __r0.step == 1, __r0.end == len, __i <= __r0.end,
        scan(data, p0, d0) == scan_n(data, src.pos as int, (len - __i) as nat, depth as nat),
    ensures __i == __r0.end
    decreases __r0.end - __i
}}}
loop-head 0 {{{
    proof { if scan(data, src.pos as int, depth as nat) is At { lemma_scan_bounds(data, src.pos as int, depth as nat); } }
}}}
loop 1 for-range {{{
    invariant
        src.inner == old(src).inner, src.pos <= data.len(),
        __r1.step == 1, __r1.end == n, __i <= __r1.end,
        scan(data, p0, d0) == scan_n(data, src.pos as int, (n - __i) as nat, depth as nat),
    ensures __i == __r1.end
    decreases __r1.end - __i
}}}
loop-head 1 {{{
    proof { if scan(data, src.pos as int, depth as nat) is At { lemma_scan_bounds(data, src.pos as int, depth as nat); } }
}}}

fn Frame::parse(src) -> r [C01 C02] {{{
    requires
        old(src).pos <= old(src).inner.data().len(),
        readable(old(src).inner.data(), old(src).pos as int),
    ensures
        final(src).inner == old(src).inner,
        match dec(old(src).inner.data(), old(src).pos as int) {
            Some((v, e)) => r is Ok && fv(r->Ok_0) == v && final(src).pos == e,
            None => r is Err,
        }
    decreases old(src).inner.data().len() - old(src).pos
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_len, group_fv;
    let ghost data = src.inner.data();
    let ghost p0 = src.pos as int;
    let ghost d0 = choose|d: nat| #[trigger] scan(data, p0, d) is At;
    let ghost d1 = (d0 - 1) as nat;
    proof {
        lemma_num_bounds(data, p0 + 1);
        lemma_scan_bounds(data, p0, d0);
        lemma_dec_agree(data, data, p0, d0);
        if data[p0] == 42 {
            lemma_scan_n_bounds(data, num(data, p0 + 1)->At_1, num(data, p0 + 1)->At_0 as nat, d1);
        }
        if data[p0] == 37 {
            lemma_scan_n_bounds(data, num(data, p0 + 1)->At_1, (2 * num(data, p0 + 1)->At_0) as nat, d1);
        }
        if data[p0] == 36 && p0 + 5 <= data.len() && data.subrange(p0 + 1, p0 + 5) == null_text() {
            lemma_null_line(data, p0 + 1);
        }
        if data[p0] == 36 && crlf(data, p0 + 1) is Some && data.subrange(p0 + 1, crlf(data, p0 + 1)->Some_0) == seq![45u8, 49u8] {
            lemma_null_line_is(data, p0 + 1);
        }
    }
}}}
loop 0 for-range {{{
    invariant
        src.inner == old(src).inner, p0 < src.pos <= data.len(),
        __r0.step == 1, __r0.end == len, __i <= __r0.end,
        scan_n(data, src.pos as int, (len - __i) as nat, d1) is At,
        dec(data, p0) == (match dec_n(data, src.pos as int, (len - __i) as nat, fvs(out@)) {
            Some((v, e)) => Some((FV::Array(v), e)),
            None => None,
        }),
    ensures __i == __r0.end
    decreases __r0.end - __i
}}}
loop-head 0 {{{
    proof {
        if __i < __r0.end {
            lemma_scan_bounds(data, src.pos as int, d1);
            lemma_dec_agree(data, data, src.pos as int, d1);
        }
    }
}}}
loop 1 for-step {{{
    invariant
        src.inner == old(src).inner, p0 < src.pos <= data.len(),
        __s1.step == 2, __s1.end == 2 * len, __s1.cur % 2 == 0, __s1.cur <= __s1.end,
        scan_n(data, src.pos as int, (2 * len - __s1.cur) as nat, d1) is At,
        dec(data, p0) == (match dec_m(data, src.pos as int, (len - __s1.cur / 2) as nat, fvm(out@)) {
            Some((v, e)) => Some((FV::Map(v), e)),
            None => None,
        }),
    ensures
        __s1.cur == __s1.end,
    decreases __s1.end - __s1.cur
}}}
loop-head 1 {{{
    proof {
        if __s1.cur < __s1.end {
            let p1 = src.pos as int;
            lemma_scan_bounds(data, p1, d1);
            lemma_dec_agree(data, data, p1, d1);
            let p2 = scan(data, p1, d1)->At_0;
            assert(scan_n(data, p2, (2 * len - __s1.cur - 1) as nat, d1) is At);
            lemma_scan_bounds(data, p2, d1);
            lemma_dec_agree(data, data, p2, d1);
        }
    }
}}}

fn peek_u8(src) -> r [C02] {{{
    ensures
        *final(src) == *old(src),
        old(src).left() > 0 ==> r == Ok::<u8, Error>(old(src).inner.data()[old(src).pos as int]),
        old(src).left() <= 0 ==> r is Err && r->Err_0 is Incomplete,
}}}
fn peek_u8_mut(src) -> r [C02] {{{
    ensures
        *final(src) == *old(src),
        old(src).left() > 0 ==> r == Ok::<u8, Error>(old(src).inner.data()[old(src).pos as int]),
        old(src).left() <= 0 ==> r is Err && r->Err_0 is Incomplete,
}}}
fn get_u8(src) -> r [C02] {{{
    ensures
        final(src).inner == old(src).inner,
        old(src).left() > 0 ==> r == Ok::<u8, Error>(old(src).inner.data()[old(src).pos as int]) && final(src).pos == old(src).pos + 1,
        old(src).left() <= 0 ==> r is Err && r->Err_0 is Incomplete && final(src).pos == old(src).pos,
}}}
fn get_u8_mut(src) -> r [C02] {{{
    ensures
        final(src).inner == old(src).inner,
        old(src).left() > 0 ==> r == Ok::<u8, Error>(old(src).inner.data()[old(src).pos as int]) && final(src).pos == old(src).pos + 1,
        old(src).left() <= 0 ==> r is Err && r->Err_0 is Incomplete && final(src).pos == old(src).pos,
}}}
fn skip(src, n) -> r [C02] {{{
    ensures
        final(src).inner == old(src).inner,
        n <= old(src).left() ==> r is Ok && final(src).pos == old(src).pos + n,
        n > old(src).left() ==> r is Err && r->Err_0 is Incomplete && final(src).pos == old(src).pos,
}}}
fn skip_mut(src, n) -> r [C02] {{{
    ensures
        final(src).inner == old(src).inner,
        n <= old(src).left() ==> r is Ok && final(src).pos == old(src).pos + n,
        n > old(src).left() ==> r is Err && r->Err_0 is Incomplete && final(src).pos == old(src).pos,
}}}
fn get_decimal(src) -> r [C02] {{{
    requires 1 <= old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match num(old(src).inner.data(), old(src).pos as int) {
            Nr::At(n, q) => r is Ok && r->Ok_0 == n && final(src).pos == q,
            Nr::Inc => r is Err && r->Err_0 is Incomplete,
            Nr::Bad => r is Err && r->Err_0 is Other,
        }
}}}
head {{{
    proof { if crlf(src.inner.data(), src.pos as int) is Some { lemma_crlf_some(src.inner.data(), src.pos as int); } }
}}}
fn get_decimal_mut(src) -> r [C02] {{{
    requires 1 <= old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match num(old(src).inner.data(), old(src).pos as int) {
            Nr::At(n, q) => r is Ok && r->Ok_0 == n && final(src).pos == q,
            Nr::Inc => r is Err && r->Err_0 is Incomplete,
            Nr::Bad => r is Err && r->Err_0 is Other,
        }
}}}
head {{{
    proof { if crlf(src.inner.data(), src.pos as int) is Some { lemma_crlf_some(src.inner.data(), src.pos as int); } }
}}}
fn get_line(src) -> r [C02] {{{
    requires 1 <= old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match crlf(old(src).inner.data(), old(src).pos as int) {
            Some(i) => r is Ok && final(src).pos == i + 2
                && r->Ok_0@ == old(src).inner.data().subrange(old(src).pos as int, i),
            None => r is Err && r->Err_0 is Incomplete,
        }
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_len;
    let ghost data = src.inner.data();
    let ghost p0 = src.pos as int;
}}}
loop 0 for-range {{{
    invariant
        *src == *old(src),
        __r0.step == 1, __r0.end == data.len() - 1, p0 <= __i, __i <= __r0.end || __i == p0,
        forall|j: int| p0 <= j < __i ==> !(#[trigger] data[j] == 13 && data[j + 1] == 10),
    ensures __i >= __r0.end
    decreases __r0.end - __i
}}}
loop-head 0 {{{
    proof { if __i < __r0.end && data[__i as int] == 13 && data[__i as int + 1] == 10 { lemma_crlf_is(data, p0, __i as int); } }
}}}
before Err(Error::Incomplete) {{{
    proof { lemma_crlf_none(data, p0); }
}}}
fn get_line_mut_no_return(src) -> r [C02] {{{
    requires 1 <= old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match crlf(old(src).inner.data(), old(src).pos as int) {
            Some(i) => r is Ok && final(src).pos == i + 2,
            None => r is Err && r->Err_0 is Incomplete,
        }
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
    let ghost data = src.inner.data();
    let ghost p0 = src.pos as int;
}}}
loop 0 for-range {{{
    invariant
        *src == *old(src),
        __r0.step == 1, __r0.end == data.len() - 1, p0 <= __i, __i <= __r0.end || __i == p0,
        forall|j: int| p0 <= j < __i ==> !(#[trigger] data[j] == 13 && data[j + 1] == 10),
    ensures __i >= __r0.end
    decreases __r0.end - __i
}}}
loop-head 0 {{{
    proof { if __i < __r0.end && data[__i as int] == 13 && data[__i as int + 1] == 10 { lemma_crlf_is(data, p0, __i as int); } }
}}}
before Err(Error::Incomplete) {{{
    proof { lemma_crlf_none(data, p0); }
}}}
fn get_line_mut(src) -> r [C02] {{{
    requires 1 <= old(src).pos <= old(src).inner.data().len()
    ensures
        final(src).inner == old(src).inner,
        match crlf(old(src).inner.data(), old(src).pos as int) {
            Some(i) => r is Ok && final(src).pos == i + 2 && r->Ok_0.start == old(src).pos && r->Ok_0.end == i,
            None => r is Err && r->Err_0 is Incomplete,
        }
}}}
attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
head {{{
    broadcast use crate::shim::bytes::axiom_bytes_mut_len;
    let ghost data = src.inner.data();
    let ghost p0 = src.pos as int;
}}}
loop 0 for-range {{{
    invariant
        *src == *old(src),
        __r0.step == 1, __r0.end == data.len() - 1, p0 <= __i, __i <= __r0.end || __i == p0,
        forall|j: int| p0 <= j < __i ==> !(#[trigger] data[j] == 13 && data[j + 1] == 10),
    ensures __i >= __r0.end
    decreases __r0.end - __i
}}}
loop-head 0 {{{
    proof { if __i < __r0.end && data[__i as int] == 13 && data[__i as int + 1] == 10 { lemma_crlf_is(data, p0, __i as int); } }
}}}
before Err(Error::Incomplete) {{{
    proof { lemma_crlf_none(data, p0); }
}}}

bottom {{{
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::String> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::shim::String) -> Error { Error::Other(crate::shim::anyhow::error_()) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a str) -> Error { Error::Other(crate::shim::anyhow::error_()) }
}
impl vstd::std_specs::convert::FromSpecImpl<TryFromIntError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TryFromIntError) -> Error { Error::Other(crate::shim::anyhow::error_()) }
}
}}}
fn Error as From<String>::from(src) -> r [C02] {{{
    ensures r is Other
}}}
fn Error as From<&str>::from(src) -> r [C02] {{{
    ensures r is Other
}}}
fn Error as From<TryFromIntError>::from(_src) -> r [C02] {{{
    ensures r is Other
}}}
