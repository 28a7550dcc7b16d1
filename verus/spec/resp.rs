//! The wire protocol: values, recognising (`scan`), decoding (`dec`) and
//! encoding (`enc`).
use vstd::prelude::*;
verus! {

/// A value of the protocol.
pub enum FV {
    Simple(Seq<u8>),
    Error(Seq<u8>),
    Integer(u64),
    Bulk(Seq<u8>),
    Null,
    Array(Seq<FV>),
    Map(Seq<(FV, FV)>),
}

/// Outcome of recognising a value at a position of a buffer.
pub enum Sc {
    /// the bytes are a strict prefix of a message
    Inc,
    /// they can't start a message
    Bad,
    /// the message ends just before this position
    At(int),
}

/// Outcome of reading a length or an integer.
pub enum Nr {
    Inc,
    Bad,
    At(u64, int),
}

/// The number of levels of nesting a message may have is up to the server, but
/// the recursion that reads them must fit in a stack: no more than this.
pub open spec fn nesting_cap() -> nat { 1024 }

/// Position of the first line break at or after `p`.
pub open spec fn crlf(s: Seq<u8>, p: int) -> Option<int>
    decreases s.len() - p
{
    if p < 0 || p + 1 >= s.len() {
        None
    } else if s[p] == 13 && s[p + 1] == 10 {
        Some(p)
    } else {
        crlf(s, p + 1)
    }
}

pub open spec fn is_digit(b: u8) -> bool { 48 <= b && b <= 57 }

pub open spec fn digits_value(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() - 48) as nat }
}

/// Decimal representation of a number.
pub open spec fn dig(n: nat) -> Seq<u8>
    decreases n
{
    if n < 10 { seq![(48 + n) as u8] } else { dig(n / 10).push((48 + n % 10) as u8) }
}

/// What the number parser answers (see `shim::atoi_simd`): at most twenty decimal digits
/// whose value fits.
#[verifier::opaque]
pub open spec fn atoi(s: Seq<u8>) -> Option<u64> {
    if 0 < s.len() <= 20 && (forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])) && digits_value(s) <= u64::MAX {
        Some(digits_value(s) as u64)
    } else { None }
}
/// A number read as it is written.
pub proof fn lemma_atoi(n: u64)
    ensures atoi(dig(n as nat)) == Some(n)
{
    reveal(atoi);
    assert(pow10(20) == 100_000_000_000_000_000_000) by (compute_only);
    lemma_dig_value(n as nat, 20);
}
pub open spec fn pow10(k: nat) -> nat
    decreases k
{ if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) } }
pub proof fn lemma_dig_value(n: nat, k: nat)
    requires n < pow10(k), k > 0
    ensures
        0 < dig(n).len() <= k, digits_value(dig(n)) == n,
        forall|i: int| 0 <= i < dig(n).len() ==> is_digit(#[trigger] dig(n)[i]),
    decreases n
{
    if n < 10 {
        assert(dig(n).drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(digits_value, 2);
    } else {
        reveal_with_fuel(pow10, 2);
        if k == 1 { assert(pow10(1) == 10); }
        lemma_dig_value(n / 10, (k - 1) as nat);
        assert(dig(n).drop_last() =~= dig(n / 10));
    }
}

/// How long the character at the start is, 0 if there is none (RFC 3629).
pub open spec fn char_len(s: Seq<u8>) -> nat {
    let tail = |i: int| 0x80 <= s[i] <= 0xbf;
    if s.len() == 0 { 0 }
    else if s[0] < 0x80 { 1 }
    else if 0xc2 <= s[0] <= 0xdf { if s.len() >= 2 && tail(1) { 2 } else { 0 } }
    else if 0xe0 <= s[0] <= 0xef {
        if s.len() >= 3 && tail(1) && tail(2) && (s[0] == 0xe0 ==> s[1] >= 0xa0) && (s[0] == 0xed ==> s[1] <= 0x9f) { 3 } else { 0 }
    } else if 0xf0 <= s[0] <= 0xf4 {
        if s.len() >= 4 && tail(1) && tail(2) && tail(3) && (s[0] == 0xf0 ==> s[1] >= 0x90) && (s[0] == 0xf4 ==> s[1] <= 0x8f) { 4 } else { 0 }
    } else { 0 }
}
/// Valid UTF-8.
#[verifier::opaque]
pub open spec fn utf8(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || char_len(s) > 0 && utf8(s.skip(char_len(s) as int))
}
/// ASCII is UTF-8.
pub proof fn lemma_utf8_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128
    ensures utf8(s)
    decreases s.len()
{
    reveal(utf8);
    if s.len() > 0 { lemma_utf8_ascii(s.skip(1)); }
}
pub broadcast proof fn lemma_utf8_of_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128
    ensures #[trigger] utf8(s)
{ lemma_utf8_ascii(s); }

pub open spec fn num(s: Seq<u8>, p: int) -> Nr {
    match crlf(s, p) {
        None => Nr::Inc,
        Some(i) => match atoi(s.subrange(p, i)) {
            None => Nr::Bad,
            Some(v) => Nr::At(v, i + 2),
        },
    }
}

/// Recognise one message at `p` with at most `d` levels of arrays and maps.
pub open spec fn scan(s: Seq<u8>, p: int, d: nat) -> Sc
    decreases d, 0nat
{
    if p < 0 || p >= s.len() {
        Sc::Inc
    } else if s[p] == 43 || s[p] == 45 {
        match crlf(s, p + 1) { None => Sc::Inc, Some(i) => Sc::At(i + 2) }
    } else if s[p] == 58 {
        match num(s, p + 1) { Nr::Inc => Sc::Inc, Nr::Bad => Sc::Bad, Nr::At(_, q) => Sc::At(q) }
    } else if s[p] == 36 {
        if p + 1 >= s.len() {
            Sc::Inc
        } else if s[p + 1] == 45 {
            if p + 5 <= s.len() { Sc::At(p + 5) } else { Sc::Inc }
        } else {
            match num(s, p + 1) {
                Nr::Inc => Sc::Inc,
                Nr::Bad => Sc::Bad,
                Nr::At(n, q) =>
                    if n + 2 > u64::MAX { Sc::Bad }
                    else if q + n + 2 <= s.len() { Sc::At(q + n + 2) }
                    else { Sc::Inc },
            }
        }
    } else if s[p] == 42 {
        match num(s, p + 1) {
            Nr::Inc => Sc::Inc,
            Nr::Bad => Sc::Bad,
            Nr::At(n, q) => if d == 0 { Sc::Bad } else { scan_n(s, q, n as nat, (d - 1) as nat) },
        }
    } else if s[p] == 37 {
        match num(s, p + 1) {
            Nr::Inc => Sc::Inc,
            Nr::Bad => Sc::Bad,
            Nr::At(n, q) =>
                if d == 0 || 2 * n > u64::MAX { Sc::Bad }
                else { scan_n(s, q, (2 * n) as nat, (d - 1) as nat) },
        }
    } else {
        Sc::Bad
    }
}

/// Recognise `n` messages one after the other.
pub open spec fn scan_n(s: Seq<u8>, p: int, n: nat, d: nat) -> Sc
    decreases d, n + 1
{
    if n == 0 { Sc::At(p) } else {
        match scan(s, p, d) {
            Sc::At(q) => scan_n(s, q, (n - 1) as nat, d),
            x => x,
        }
    }
}

/// Are two keys of a map the same key? (the equality of `Frame`)
pub open spec fn same_key(a: FV, b: FV) -> bool
    decreases a, 0nat
{
    match (a, b) {
        (FV::Simple(x), FV::Simple(y)) => x == y,
        (FV::Error(x), FV::Error(y)) => x == y,
        (FV::Integer(x), FV::Integer(y)) => x == y,
        (FV::Bulk(x), FV::Bulk(y)) => x == y,
        (FV::Null, FV::Null) => true,
        (FV::Array(x), FV::Array(y)) => x.len() == y.len() && same_n(x, y, x.len()),
        (FV::Map(x), FV::Map(y)) => x.len() == y.len() && same_map(x, y),
        _ => false,
    }
}
/// The first `n` values are the same.
pub open spec fn same_n(x: Seq<FV>, y: Seq<FV>, n: nat) -> bool
    decreases x, n
{
    if n == 0 || n > x.len() { true } else { same_n(x, y, (n - 1) as nat) && same_key(x[n - 1], y[n - 1]) }
}
/// Two maps of as many entries have the same ones, in any order (see `shim::indexmap`).
pub uninterp spec fn same_map(x: Seq<(FV, FV)>, y: Seq<(FV, FV)>) -> bool;

/// What is given to a hasher.
pub enum Fed { Kind(int), Text(Seq<u8>), Bytes(Seq<u8>), Num(int) }
/// What a map is told of a key in order to find it again.
pub open spec fn hashed(v: FV) -> Seq<Fed>
    decreases v, 0nat
{
    match v {
        FV::Simple(t) => seq![Fed::Kind(0), Fed::Text(t)],
        FV::Error(t) => seq![Fed::Kind(1), Fed::Text(t)],
        FV::Integer(n) => seq![Fed::Kind(2), Fed::Num(n as int)],
        FV::Bulk(t) => seq![Fed::Kind(3), Fed::Bytes(t)],
        FV::Null => seq![Fed::Kind(4)],
        FV::Array(a) => seq![Fed::Kind(5), Fed::Num(a.len() as int)] + hashed_n(a, a.len()),
        FV::Map(m) => seq![Fed::Kind(6), Fed::Num(m.len() as int)],
    }
}
pub open spec fn hashed_n(a: Seq<FV>, n: nat) -> Seq<Fed>
    decreases a, n
{
    if n == 0 || n > a.len() { Seq::empty() } else { hashed_n(a, (n - 1) as nat) + hashed(a[n - 1]) }
}
pub open spec fn variant(v: FV) -> int {
    match v { FV::Simple(_) => 0, FV::Error(_) => 1, FV::Integer(_) => 2, FV::Bulk(_) => 3, FV::Null => 4, FV::Array(_) => 5, FV::Map(_) => 6 }
}

/// Put an entry in a map.
pub open spec fn map_put(m: Seq<(FV, FV)>, k: FV, v: FV) -> Seq<(FV, FV)>
    decreases m.len()
{
    if m.len() == 0 { seq![(k, v)] }
    else if same_key(m[0].0, k) { seq![(m[0].0, v)] + m.drop_first() }
    else { seq![m[0]] + map_put(m.drop_first(), k, v) }
}

pub open spec fn null_text() -> Seq<u8> { seq![45u8, 49, 13, 10] }

/// Decode one message at `p`: its value and where it ends.
pub open spec fn dec(s: Seq<u8>, p: int) -> Option<(FV, int)>
    decreases s.len() - p, 0nat
{
    if p < 0 || p >= s.len() {
        None
    } else if s[p] == 43 || s[p] == 45 {
        match crlf(s, p + 1) {
            None => None,
            Some(i) => {
                let t = s.subrange(p + 1, i);
                if !utf8(t) { None }
                else if s[p] == 43 { Some((FV::Simple(t), i + 2)) }
                else { Some((FV::Error(t), i + 2)) }
            },
        }
    } else if s[p] == 58 {
        match num(s, p + 1) { Nr::At(n, q) => Some((FV::Integer(n), q)), _ => None }
    } else if s[p] == 36 {
        if p + 1 >= s.len() {
            None
        } else if s[p + 1] == 45 {
            if p + 5 <= s.len() && s.subrange(p + 1, p + 5) == null_text() {
                Some((FV::Null, p + 5))
            } else { None }
        } else {
            match num(s, p + 1) {
                Nr::At(n, q) =>
                    if q + n + 2 <= s.len() { Some((FV::Bulk(s.subrange(q, q + n)), q + n + 2)) }
                    else { None },
                _ => None,
            }
        }
    } else if s[p] == 42 {
        match num(s, p + 1) {
            Nr::At(n, q) => if p < q && q <= s.len() {
                match dec_n(s, q, n as nat, Seq::empty()) {
                    Some((v, e)) => Some((FV::Array(v), e)),
                    None => None,
                }
            } else { None },
            _ => None,
        }
    } else if s[p] == 37 {
        match num(s, p + 1) {
            Nr::At(n, q) => if p < q && q <= s.len() {
                match dec_m(s, q, n as nat, Seq::empty()) {
                    Some((v, e)) => Some((FV::Map(v), e)),
                    None => None,
                }
            } else { None },
            _ => None,
        }
    } else {
        None
    }
}

pub open spec fn dec_n(s: Seq<u8>, p: int, n: nat, acc: Seq<FV>) -> Option<(Seq<FV>, int)>
    decreases s.len() - p, n + 1
{
    if n == 0 { Some((acc, p)) }
    else {
        match dec(s, p) {
            Some((v, q)) => if p < q && q <= s.len() { dec_n(s, q, (n - 1) as nat, acc.push(v)) } else { None },
            None => None,
        }
    }
}

pub open spec fn dec_m(s: Seq<u8>, p: int, n: nat, acc: Seq<(FV, FV)>) -> Option<(Seq<(FV, FV)>, int)>
    decreases s.len() - p, n + 1
{
    if n == 0 { Some((acc, p)) }
    else {
        match dec(s, p) {
            Some((k, q)) => if p < q && q <= s.len() {
                match dec(s, q) {
                    Some((v, r)) => if q < r && r <= s.len() {
                        dec_m(s, r, (n - 1) as nat, map_put(acc, k, v))
                    } else { None },
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}

pub open spec fn eol() -> Seq<u8> { seq![13u8, 10u8] }

pub open spec fn flat(b: u8) -> u8 { if b == 13 || b == 10 { 32 } else { b } }

/// The text of a simple string or of an error, as sent.
pub open spec fn flat_text(t: Seq<u8>) -> Seq<u8> { t.map_values(|b: u8| flat(b)) }

/// The encoding of a value.
pub open spec fn enc(v: FV) -> Seq<u8>
    decreases v, 0nat
{
    match v {
        FV::Simple(t) => seq![43u8] + flat_text(t) + eol(),
        FV::Error(t) => seq![45u8] + flat_text(t) + eol(),
        FV::Integer(n) => seq![58u8] + dig(n as nat) + eol(),
        FV::Null => seq![36u8] + null_text(),
        FV::Bulk(t) => seq![36u8] + dig(t.len()) + eol() + t + eol(),
        FV::Array(a) => seq![42u8] + dig(a.len()) + eol() + enc_n(a, a.len()),
        FV::Map(m) => seq![37u8] + dig(m.len()) + eol() + enc_m(m, m.len()),
    }
}

/// The encodings of the first `n` values.
pub open spec fn enc_n(a: Seq<FV>, n: nat) -> Seq<u8>
    decreases a, n
{
    if n == 0 || n > a.len() { Seq::empty() } else { enc_n(a, (n - 1) as nat) + enc(a[n - 1]) }
}

/// The encodings of the first `n` entries.
pub open spec fn enc_m(a: Seq<(FV, FV)>, n: nat) -> Seq<u8>
    decreases a, n
{
    if n == 0 || n > a.len() { Seq::empty() }
    else { enc_m(a, (n - 1) as nat) + enc(a[n - 1].0) + enc(a[n - 1].1) }
}

/// Values a client can encode: texts are valid and have no line break, lengths
/// fit, the keys of a map differ, and there are at most `d` levels.
pub open spec fn encodable(v: FV, d: nat) -> bool
    decreases v
{
    match v {
        FV::Simple(t) => utf8(t) && flat_text(t) == t,
        FV::Error(t) => utf8(t) && flat_text(t) == t,
        FV::Integer(_) => true,
        FV::Null => true,
        FV::Bulk(t) => t.len() + 2 <= u64::MAX,
        FV::Array(a) => d > 0 && a.len() <= u64::MAX
            && forall|i: int| 0 <= i < a.len() ==> encodable(#[trigger] a[i], (d - 1) as nat),
        FV::Map(m) => d > 0 && 2 * m.len() <= u64::MAX
            && (forall|i: int| 0 <= i < m.len() ==> encodable((#[trigger] m[i]).0, (d - 1) as nat) && encodable(m[i].1, (d - 1) as nat))
            && (forall|i: int, j: int| 0 <= i < j < m.len() ==> !same_key((#[trigger] m[i]).0, (#[trigger] m[j]).0)),
    }
}

} // verus!
