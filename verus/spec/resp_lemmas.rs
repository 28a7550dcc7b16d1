//! Lemmas about the wire protocol.
use vstd::prelude::*;
use super::resp::*;
verus! {

/// The two buffers hold the same first `m` bytes.
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, m: int) -> bool {
    0 <= m <= a.len() && m <= b.len() && forall|i: int| 0 <= i < m ==> #[trigger] a[i] == b[i]
}

pub proof fn lemma_crlf_some(s: Seq<u8>, p: int)
    requires crlf(s, p) is Some
    ensures
        0 <= p <= crlf(s, p)->0, crlf(s, p)->0 + 1 < s.len(),
        s[crlf(s, p)->0] == 13, s[crlf(s, p)->0 + 1] == 10,
        forall|j: int| p <= j < crlf(s, p)->0 ==> !(#[trigger] s[j] == 13 && s[j + 1] == 10),
    decreases s.len() - p
{
    if !(s[p] == 13 && s[p + 1] == 10) {
        lemma_crlf_some(s, p + 1);
    }
}

pub proof fn lemma_crlf_is(s: Seq<u8>, p: int, i: int)
    requires
        0 <= p <= i, i + 1 < s.len(), s[i] == 13, s[i + 1] == 10,
        forall|j: int| p <= j < i ==> !(#[trigger] s[j] == 13 && s[j + 1] == 10),
    ensures crlf(s, p) == Some(i)
    decreases i - p
{
    if p < i {
        lemma_crlf_is(s, p + 1, i);
    }
}

pub proof fn lemma_crlf_none(s: Seq<u8>, p: int)
    requires
        0 <= p,
        forall|j: int| p <= j < s.len() - 1 ==> !(#[trigger] s[j] == 13 && s[j + 1] == 10),
    ensures crlf(s, p) is None
    decreases s.len() - p
{
    if p + 1 < s.len() {
        lemma_crlf_none(s, p + 1);
    }
}

pub proof fn lemma_crlf_agree(s: Seq<u8>, t: Seq<u8>, p: int)
    requires crlf(s, p) is Some, agree(s, t, crlf(s, p)->0 + 2)
    ensures crlf(t, p) == crlf(s, p)
{
    lemma_crlf_some(s, p);
    let i = crlf(s, p)->0;
    assert forall|j: int| p <= j < i implies !(#[trigger] t[j] == 13 && t[j + 1] == 10) by {
        assert(s[j] == t[j] && s[j + 1] == t[j + 1]);
    }
    assert(s[i] == t[i] && s[i + 1] == t[i + 1]);
    lemma_crlf_is(t, p, i);
}

pub proof fn lemma_num_bounds(s: Seq<u8>, p: int)
    ensures num(s, p) is At ==> p + 2 <= num(s, p)->At_1 <= s.len(),
        num(s, p) is At ==> crlf(s, p) == Some(num(s, p)->At_1 - 2),
        num(s, p) is At ==> atoi(s.subrange(p, num(s, p)->At_1 - 2)) == Some(num(s, p)->At_0),
        num(s, p) is At ==> p + 2 < num(s, p)->At_1
{
    if num(s, p) is At {
        lemma_crlf_some(s, p);
        reveal(atoi);
    }
}

pub proof fn lemma_num_agree(s: Seq<u8>, t: Seq<u8>, p: int)
    requires !(num(s, p) is Inc), agree(s, t, crlf(s, p)->0 + 2)
    ensures num(t, p) == num(s, p)
{
    lemma_crlf_agree(s, t, p);
    lemma_crlf_some(s, p);
    let i = crlf(s, p)->0;
    assert(s.subrange(p, i) =~= t.subrange(p, i));
}

/// A message is not empty, and lies within the buffer.
pub proof fn lemma_scan_bounds(s: Seq<u8>, p: int, d: nat)
    requires scan(s, p, d) is At
    ensures 0 <= p < scan(s, p, d)->At_0 <= s.len()
    decreases d, 0nat
{
    if s[p] == 43 || s[p] == 45 {
        lemma_crlf_some(s, p + 1);
    } else {
        lemma_num_bounds(s, p + 1);
        if s[p] == 42 {
            lemma_scan_n_bounds(s, num(s, p + 1)->At_1, num(s, p + 1)->At_0 as nat, (d - 1) as nat);
        } else if s[p] == 37 {
            lemma_scan_n_bounds(s, num(s, p + 1)->At_1, (2 * num(s, p + 1)->At_0) as nat, (d - 1) as nat);
        }
    }
}

pub proof fn lemma_scan_n_bounds(s: Seq<u8>, p: int, n: nat, d: nat)
    requires scan_n(s, p, n, d) is At, 0 <= p <= s.len()
    ensures p <= scan_n(s, p, n, d)->At_0 <= s.len(),
        p + n <= scan_n(s, p, n, d)->At_0,
    decreases d, n + 1
{
    if n > 0 {
        lemma_scan_bounds(s, p, d);
        lemma_scan_n_bounds(s, scan(s, p, d)->At_0, (n - 1) as nat, d);
    }
}

/// Recognising a message only looks at the bytes of that message.
pub proof fn lemma_scan_agree(s: Seq<u8>, t: Seq<u8>, p: int, d: nat)
    requires scan(s, p, d) is At, agree(s, t, scan(s, p, d)->At_0)
    ensures scan(t, p, d) == scan(s, p, d)
    decreases d, 0nat
{
    lemma_scan_bounds(s, p, d);
    let e = scan(s, p, d)->At_0;
    assert(s[p] == t[p]);
    if s[p] == 43 || s[p] == 45 {
        lemma_crlf_agree(s, t, p + 1);
    } else if s[p] == 36 {
        if s[p + 1] == 45 {
            assert(t[p + 1] == 45);
        } else {
            lemma_num_bounds(s, p + 1);
            assert(t[p + 1] == s[p + 1]);
            lemma_num_agree(s, t, p + 1);
        }
    } else if s[p] == 42 {
        let q = num(s, p + 1)->At_1;
        let n = num(s, p + 1)->At_0;
        lemma_num_bounds(s, p + 1);
        lemma_scan_n_bounds(s, q, n as nat, (d - 1) as nat);
        lemma_num_agree(s, t, p + 1);
        lemma_scan_n_agree(s, t, q, n as nat, (d - 1) as nat);
    } else if s[p] == 37 {
        let q = num(s, p + 1)->At_1;
        let n = num(s, p + 1)->At_0;
        lemma_num_bounds(s, p + 1);
        lemma_scan_n_bounds(s, q, (2 * n) as nat, (d - 1) as nat);
        lemma_num_agree(s, t, p + 1);
        lemma_scan_n_agree(s, t, q, (2 * n) as nat, (d - 1) as nat);
    } else {
        lemma_num_agree(s, t, p + 1);
    }
}

pub proof fn lemma_scan_n_agree(s: Seq<u8>, t: Seq<u8>, p: int, n: nat, d: nat)
    requires scan_n(s, p, n, d) is At, 0 <= p <= s.len(), agree(s, t, scan_n(s, p, n, d)->At_0)
    ensures scan_n(t, p, n, d) == scan_n(s, p, n, d)
    decreases d, n + 1
{
    if n > 0 {
        lemma_scan_bounds(s, p, d);
        let q = scan(s, p, d)->At_0;
        lemma_scan_n_bounds(s, q, (n - 1) as nat, d);
        lemma_scan_agree(s, t, p, d);
        lemma_scan_n_agree(s, t, q, (n - 1) as nat, d);
    }
}

/// Bytes that can't start a message still can't when more bytes follow.
pub proof fn lemma_scan_bad(s: Seq<u8>, t: Seq<u8>, p: int, d: nat)
    requires scan(s, p, d) is Bad, agree(s, t, s.len() as int)
    ensures scan(t, p, d) is Bad
    decreases d, 0nat
{
    assert(s[p] == t[p]);
    if s[p] == 58 {
        lemma_crlf_some(s, p + 1);
        lemma_num_agree(s, t, p + 1);
    } else if s[p] == 36 || s[p] == 42 || s[p] == 37 {
        lemma_crlf_some(s, p + 1);
        lemma_num_agree(s, t, p + 1);
        if s[p] == 36 { assert(t[p + 1] == s[p + 1]); }
        if num(s, p + 1) is At {
            lemma_num_bounds(s, p + 1);
            let q = num(s, p + 1)->At_1;
            let n = num(s, p + 1)->At_0;
            if s[p] == 42 && d > 0 {
                lemma_scan_n_bad(s, t, q, n as nat, (d - 1) as nat);
            } else if s[p] == 37 && d > 0 && 2 * n <= u64::MAX {
                lemma_scan_n_bad(s, t, q, (2 * n) as nat, (d - 1) as nat);
            }
        }
    }
}

pub proof fn lemma_scan_n_bad(s: Seq<u8>, t: Seq<u8>, p: int, n: nat, d: nat)
    requires scan_n(s, p, n, d) is Bad, 0 <= p <= s.len(), agree(s, t, s.len() as int)
    ensures scan_n(t, p, n, d) is Bad
    decreases d, n + 1
{
    if scan(s, p, d) is Bad {
        lemma_scan_bad(s, t, p, d);
    } else {
        lemma_scan_bounds(s, p, d);
        lemma_scan_agree(s, t, p, d);
        lemma_scan_n_bad(s, t, scan(s, p, d)->At_0, (n - 1) as nat, d);
    }
}

/// Decoding a recognised message only looks at its bytes, and ends where the
/// message ends.
pub proof fn lemma_dec_agree(s: Seq<u8>, t: Seq<u8>, p: int, d: nat)
    requires scan(s, p, d) is At, agree(s, t, scan(s, p, d)->At_0)
    ensures dec(t, p) == dec(s, p),
        dec(s, p) is Some ==> dec(s, p)->Some_0.1 == scan(s, p, d)->At_0,
    decreases d, 0nat
{
    lemma_scan_bounds(s, p, d);
    lemma_scan_agree(s, t, p, d);
    let e = scan(s, p, d)->At_0;
    assert(s[p] == t[p]);
    if s[p] == 43 || s[p] == 45 {
        lemma_crlf_agree(s, t, p + 1);
        lemma_crlf_some(s, p + 1);
        let i = crlf(s, p + 1)->0;
        assert(s.subrange(p + 1, i) =~= t.subrange(p + 1, i));
    } else if s[p] == 36 {
        lemma_num_bounds(s, p + 1);
        assert(t[p + 1] == s[p + 1]);
        if s[p + 1] == 45 {
            assert(s.subrange(p + 1, p + 5) =~= t.subrange(p + 1, p + 5));
        } else {
            lemma_num_bounds(s, p + 1);
            lemma_num_agree(s, t, p + 1);
            let q = num(s, p + 1)->At_1;
            let n = num(s, p + 1)->At_0;
            assert(s.subrange(q, q + n) =~= t.subrange(q, q + n));
        }
    } else if s[p] == 42 {
        let q = num(s, p + 1)->At_1;
        let n = num(s, p + 1)->At_0;
        lemma_num_bounds(s, p + 1);
        lemma_scan_n_bounds(s, q, n as nat, (d - 1) as nat);
        lemma_num_agree(s, t, p + 1);
        lemma_dec_n_agree(s, t, q, n as nat, (d - 1) as nat, Seq::empty());
    } else if s[p] == 37 {
        let q = num(s, p + 1)->At_1;
        let n = num(s, p + 1)->At_0;
        lemma_num_bounds(s, p + 1);
        lemma_scan_n_bounds(s, q, (2 * n) as nat, (d - 1) as nat);
        lemma_num_agree(s, t, p + 1);
        lemma_dec_m_agree(s, t, q, n as nat, (d - 1) as nat, Seq::empty());
    } else {
        lemma_num_bounds(s, p + 1);
        lemma_num_agree(s, t, p + 1);
    }
}

pub proof fn lemma_dec_n_agree(s: Seq<u8>, t: Seq<u8>, p: int, n: nat, d: nat, acc: Seq<FV>)
    requires scan_n(s, p, n, d) is At, 0 <= p <= s.len(), agree(s, t, scan_n(s, p, n, d)->At_0)
    ensures dec_n(t, p, n, acc) == dec_n(s, p, n, acc),
        dec_n(s, p, n, acc) is Some ==> dec_n(s, p, n, acc)->Some_0.1 == scan_n(s, p, n, d)->At_0,
    decreases d, n + 1
{
    if n > 0 {
        lemma_scan_bounds(s, p, d);
        let q = scan(s, p, d)->At_0;
        lemma_scan_n_bounds(s, q, (n - 1) as nat, d);
        lemma_dec_agree(s, t, p, d);
        if dec(s, p) is Some {
            lemma_dec_n_agree(s, t, q, (n - 1) as nat, d, acc.push(dec(s, p)->Some_0.0));
        }
    }
}

pub proof fn lemma_dec_m_agree(s: Seq<u8>, t: Seq<u8>, p: int, n: nat, d: nat, acc: Seq<(FV, FV)>)
    requires scan_n(s, p, 2 * n, d) is At, 0 <= p <= s.len(), agree(s, t, scan_n(s, p, 2 * n, d)->At_0)
    ensures dec_m(t, p, n, acc) == dec_m(s, p, n, acc),
        dec_m(s, p, n, acc) is Some ==> dec_m(s, p, n, acc)->Some_0.1 == scan_n(s, p, 2 * n, d)->At_0,
    decreases d, n + 1
{
    if n > 0 {
        lemma_scan_bounds(s, p, d);
        let q = scan(s, p, d)->At_0;
        lemma_scan_n_bounds(s, q, (2 * n - 1) as nat, d);
        lemma_scan_bounds(s, q, d);
        let r = scan(s, q, d)->At_0;
        assert(scan_n(s, q, (2 * n - 1) as nat, d) == scan_n(s, r, (2 * n - 2) as nat, d));
        lemma_scan_n_bounds(s, r, (2 * n - 2) as nat, d);
        assert((2 * n - 2) as nat == 2 * ((n - 1) as nat));
        lemma_dec_agree(s, t, p, d);
        lemma_dec_agree(s, t, q, d);
        if dec(s, p) is Some && dec(s, q) is Some {
            lemma_dec_m_agree(s, t, r, (n - 1) as nat, d, map_put(acc, dec(s, p)->Some_0.0, dec(s, q)->Some_0.0));
        }
    }
}

/// The text of a null ends at its line break.
pub proof fn lemma_null_line(s: Seq<u8>, p: int)
    requires 0 <= p, p + 4 <= s.len(), s.subrange(p, p + 4) == null_text()
    ensures crlf(s, p) == Some(p + 2), s.subrange(p, p + 2) == seq![45u8, 49u8]
{
    let z = s.subrange(p, p + 4);
    assert(z[0] == s[p] && z[1] == s[p + 1] && z[2] == s[p + 2] && z[3] == s[p + 3]);
    lemma_crlf_is(s, p, p + 2);
    assert(s.subrange(p, p + 2) =~= seq![45u8, 49u8]);
}
pub proof fn lemma_null_line_is(s: Seq<u8>, p: int)
    requires crlf(s, p) is Some, s.subrange(p, crlf(s, p)->0) == seq![45u8, 49u8]
    ensures p + 4 <= s.len(), s.subrange(p, p + 4) == null_text(), crlf(s, p) == Some(p + 2)
{
    lemma_crlf_some(s, p);
    let z = s.subrange(p, crlf(s, p)->0);
    assert(z.len() == 2);
    assert(z[0] == s[p] && z[1] == s[p + 1]);
    assert(s.subrange(p, p + 4) =~= null_text());
}

// ---- encoding then decoding --------------------------------------------------

pub proof fn lemma_dig(n: nat)
    ensures dig(n).len() > 0, forall|i: int| 0 <= i < dig(n).len() ==> is_digit(#[trigger] dig(n)[i]),
    decreases n
{
    if n >= 10 { lemma_dig(n / 10); }
}

pub proof fn lemma_num_enc(s: Seq<u8>, p: int, n: u64)
    requires 0 <= p, p + dig(n as nat).len() + 2 <= s.len(),
        s.subrange(p, p + dig(n as nat).len() + 2) == dig(n as nat) + eol(),
    ensures num(s, p) == Nr::At(n, p + dig(n as nat).len() + 2), s[p] != 45
{
    let g = dig(n as nat);
    lemma_dig(n as nat);
    let i = p + g.len();
    let sub = s.subrange(p, i + 2);
    assert forall|j: int| p <= j < i + 2 implies #[trigger] s[j] == (g + eol())[j - p] by {
        assert(s[j] == sub[j - p]);
    }
    assert forall|j: int| p <= j < i implies !(#[trigger] s[j] == 13 && s[j + 1] == 10) by {
        assert(is_digit(g[j - p]));
    }
    lemma_crlf_is(s, p, i);
    assert(s.subrange(p, i) =~= g);
    lemma_atoi(n);
    assert(s[p] == g[0]);
}

/// `s` holds `x` at `p`.
pub open spec fn holds(s: Seq<u8>, p: int, x: Seq<u8>) -> bool {
    0 <= p && p + x.len() <= s.len() && s.subrange(p, p + x.len()) == x
}

pub proof fn lemma_holds_split(s: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires holds(s, p, x + y)
    ensures holds(s, p, x), holds(s, p + x.len(), y)
{
    let z = x + y;
    assert forall|i: int| 0 <= i < z.len() implies s[p + i] == z[i] by {
        assert(s.subrange(p, p + z.len())[i] == s[p + i]);
    }
    assert(s.subrange(p, p + x.len()) =~= x);
    let w = s.subrange(p + x.len(), p + x.len() + y.len());
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] w[i] == y[i] by {
        assert(z[x.len() + i] == y[i]);
    }
    assert(w =~= y);
}

pub proof fn lemma_text_enc(s: Seq<u8>, p: int, t: Seq<u8>)
    requires holds(s, p, t + eol()), flat_text(t) == t
    ensures crlf(s, p) == Some(p + t.len()), s.subrange(p, p + t.len()) == t
{
    lemma_holds_split(s, p, t, eol());
    let i = p + t.len();
    let z = t + eol();
    assert forall|j: int| 0 <= j < z.len() implies s[p + j] == #[trigger] z[j] by {
        assert(s.subrange(p, p + z.len())[j] == s[p + j]);
    }
    assert forall|j: int| p <= j < i implies !(#[trigger] s[j] == 13 && s[j + 1] == 10) by {
        assert(z[j - p] == t[j - p]);
        assert(flat_text(t)[j - p] == flat(t[j - p]));
    }
    assert(s[p + t.len()] == z[t.len() as int]);
    assert(s[p + t.len() + 1] == z[t.len() as int + 1]);
    lemma_crlf_is(s, p, i);
}

pub proof fn lemma_enc_nonempty(v: FV)
    ensures enc(v).len() > 0
    decreases v
{ }

pub proof fn lemma_enc_byte(s: Seq<u8>, p: int, b: u8, x: Seq<u8>)
    requires holds(s, p, seq![b] + x)
    ensures 0 <= p < s.len(), s[p] == b, holds(s, p + 1, x)
{
    lemma_holds_split(s, p, seq![b], x);
    assert(s.subrange(p, p + 1)[0] == s[p]);
}

proof fn lemma_roundtrip_simple(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Simple, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
{
    let t = v->Simple_0;
    assert(enc(v) =~= seq![43u8] + (t + eol()));
    lemma_enc_byte(s, p, 43, t + eol());
    lemma_text_enc(s, p + 1, t);
}
proof fn lemma_roundtrip_error(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Error, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
{
    let t = v->Error_0;
    assert(enc(v) =~= seq![45u8] + (t + eol()));
    lemma_enc_byte(s, p, 45, t + eol());
    lemma_text_enc(s, p + 1, t);
}
proof fn lemma_roundtrip_integer(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Integer, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
{
    let n = v->Integer_0;
    assert(enc(v) =~= seq![58u8] + (dig(n as nat) + eol()));
    lemma_enc_byte(s, p, 58, dig(n as nat) + eol());
    lemma_num_enc(s, p + 1, n);
}
proof fn lemma_roundtrip_null(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Null, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
{
    lemma_enc_byte(s, p, 36, null_text());
    assert(s.subrange(p + 1, p + 5)[0] == s[p + 1]);
}
proof fn lemma_roundtrip_bulk(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Bulk, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
{
    let t = v->Bulk_0;
    let g = dig(t.len());
    let n = t.len() as u64;
    assert(enc(v) =~= seq![36u8] + ((g + eol()) + (t + eol())));
    lemma_enc_byte(s, p, 36, (g + eol()) + (t + eol()));
    lemma_holds_split(s, p + 1, g + eol(), t + eol());
    lemma_num_enc(s, p + 1, n);
    lemma_holds_split(s, p + 1 + g.len() + 2, t, eol());
}
proof fn lemma_roundtrip_array(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Array, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
    decreases v, 0nat
{
    let a = v->Array_0;
    let g = dig(a.len());
    let n = a.len() as u64;
    assert(enc(v) =~= seq![42u8] + ((g + eol()) + enc_n(a, a.len())));
    lemma_enc_byte(s, p, 42, (g + eol()) + enc_n(a, a.len()));
    lemma_holds_split(s, p + 1, g + eol(), enc_n(a, a.len()));
    lemma_num_enc(s, p + 1, n);
    let q = p + 1 + g.len() + 2;
    assert(enc_n(a, 0) =~= Seq::<u8>::empty());
    assert(a.subrange(0, 0) =~= Seq::<FV>::empty());
    lemma_roundtrip_n(s, q, a, 0, (d - 1) as nat);
    assert(a.subrange(0, a.len() as int) =~= a);
}
proof fn lemma_roundtrip_map(s: Seq<u8>, p: int, v: FV, d: nat)
    requires v is Map, holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
    decreases v, 0nat
{
    let m = v->Map_0;
    let g = dig(m.len());
    let n = m.len() as u64;
    assert(enc(v) =~= seq![37u8] + ((g + eol()) + enc_m(m, m.len())));
    lemma_enc_byte(s, p, 37, (g + eol()) + enc_m(m, m.len()));
    lemma_holds_split(s, p + 1, g + eol(), enc_m(m, m.len()));
    lemma_num_enc(s, p + 1, n);
    let q = p + 1 + g.len() + 2;
    assert(enc_m(m, 0) =~= Seq::<u8>::empty());
    assert(m.subrange(0, 0) =~= Seq::<(FV, FV)>::empty());
    lemma_roundtrip_m(s, q, m, 0, (d - 1) as nat);
    assert(m.subrange(0, m.len() as int) =~= m);
}
/// Decoding an encoding gives back the value, whatever is around.
pub proof fn lemma_roundtrip(s: Seq<u8>, p: int, v: FV, d: nat)
    requires holds(s, p, enc(v)), encodable(v, d)
    ensures
        dec(s, p) == Some((v, p + enc(v).len())),
        scan(s, p, d) == Sc::At(p + enc(v).len()),
    decreases v, 1nat
{
    match v {
        FV::Simple(_) => lemma_roundtrip_simple(s, p, v, d),
        FV::Error(_) => lemma_roundtrip_error(s, p, v, d),
        FV::Integer(_) => lemma_roundtrip_integer(s, p, v, d),
        FV::Null => lemma_roundtrip_null(s, p, v, d),
        FV::Bulk(_) => lemma_roundtrip_bulk(s, p, v, d),
        FV::Array(_) => lemma_roundtrip_array(s, p, v, d),
        FV::Map(_) => lemma_roundtrip_map(s, p, v, d),
    }
}

pub proof fn lemma_enc_n_split(a: Seq<FV>, n: nat, m: nat)
    requires n <= m <= a.len()
    ensures
        enc_n(a, n).len() <= enc_n(a, m).len(),
        enc_n(a, m) == enc_n(a, n) + enc_n(a, m).skip(enc_n(a, n).len() as int),
    decreases m
{
    if n == m {
        assert(enc_n(a, m) =~= enc_n(a, n) + enc_n(a, m).skip(enc_n(a, n).len() as int));
    } else {
        lemma_enc_n_split(a, n, (m - 1) as nat);
        let x = enc_n(a, (m - 1) as nat).skip(enc_n(a, n).len() as int);
        assert(enc_n(a, m) =~= enc_n(a, n) + (x + enc(a[m - 1])));
        assert(enc_n(a, m).skip(enc_n(a, n).len() as int) =~= x + enc(a[m - 1]));
    }
}

pub proof fn lemma_enc_m_split(a: Seq<(FV, FV)>, n: nat, m: nat)
    requires n <= m <= a.len()
    ensures
        enc_m(a, n).len() <= enc_m(a, m).len(),
        enc_m(a, m) == enc_m(a, n) + enc_m(a, m).skip(enc_m(a, n).len() as int),
    decreases m
{
    if n == m {
        assert(enc_m(a, m) =~= enc_m(a, n) + enc_m(a, m).skip(enc_m(a, n).len() as int));
    } else {
        lemma_enc_m_split(a, n, (m - 1) as nat);
        let x = enc_m(a, (m - 1) as nat).skip(enc_m(a, n).len() as int);
        assert(enc_m(a, m) =~= enc_m(a, n) + (x + (enc(a[m - 1].0) + enc(a[m - 1].1))));
        assert(enc_m(a, m).skip(enc_m(a, n).len() as int) =~= x + (enc(a[m - 1].0) + enc(a[m - 1].1)));
    }
}

pub proof fn lemma_roundtrip_n(s: Seq<u8>, q: int, a: Seq<FV>, i: nat, d: nat)
    requires
        holds(s, q, enc_n(a, a.len())), i <= a.len(),
        forall|k: int| 0 <= k < a.len() ==> encodable(#[trigger] a[k], d),
    ensures
        dec_n(s, q + enc_n(a, i).len(), (a.len() - i) as nat, a.subrange(0, i as int))
            == Some((a, q + enc_n(a, a.len()).len())),
        scan_n(s, q + enc_n(a, i).len(), (a.len() - i) as nat, d) == Sc::At(q + enc_n(a, a.len()).len()),
    decreases a, 0nat, a.len() - i
{
    if i == a.len() {
        assert(a.subrange(0, i as int) =~= a);
    } else {
        lemma_enc_n_split(a, i + 1, a.len());
        let x = enc_n(a, a.len()).skip(enc_n(a, i + 1).len() as int);
        assert(enc_n(a, a.len()) =~= enc_n(a, i) + (enc(a[i as int]) + x));
        lemma_holds_split(s, q, enc_n(a, i), enc(a[i as int]) + x);
        let p = q + enc_n(a, i).len();
        lemma_holds_split(s, p, enc(a[i as int]), x);
        lemma_roundtrip(s, p, a[i as int], d);
        lemma_enc_nonempty(a[i as int]);
        lemma_roundtrip_n(s, q, a, i + 1, d);
        assert(a.subrange(0, i as int).push(a[i as int]) =~= a.subrange(0, i as int + 1));
    }
}

/// Keys that are the same are looked for at the same place.
pub proof fn theorem_hashed(a: FV, b: FV)
    requires same_key(a, b)
    ensures hashed(a) == hashed(b)
    decreases a, 0nat
{
    match (a, b) {
        (FV::Array(x), FV::Array(y)) => { lemma_hashed_n(x, y, x.len()); },
        _ => {},
    }
}
pub proof fn lemma_hashed_n(x: Seq<FV>, y: Seq<FV>, n: nat)
    requires same_n(x, y, n), n <= x.len() == y.len()
    ensures hashed_n(x, n) == hashed_n(y, n)
    decreases x, n
{
    reveal_with_fuel(same_n, 2);
    if n > 0 { assert(same_n(x, y, (n - 1) as nat) && same_key(x[n - 1], y[n - 1])); lemma_hashed_n(x, y, (n - 1) as nat); theorem_hashed(x[n - 1], y[n - 1]); }
}

pub proof fn lemma_put_new(m: Seq<(FV, FV)>, k: FV, v: FV)
    requires forall|i: int| 0 <= i < m.len() ==> !same_key((#[trigger] m[i]).0, k)
    ensures map_put(m, k, v) == m.push((k, v))
    decreases m.len()
{
    if m.len() == 0 {
        assert(m.push((k, v)) =~= seq![(k, v)]);
    } else {
        let r = m.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies !same_key((#[trigger] r[i]).0, k) by {
            assert(r[i] == m[i + 1]);
        }
        lemma_put_new(r, k, v);
        assert(seq![m[0]] + r.push((k, v)) =~= m.push((k, v)));
    }
}

pub proof fn lemma_roundtrip_m(s: Seq<u8>, q: int, a: Seq<(FV, FV)>, i: nat, d: nat)
    requires
        holds(s, q, enc_m(a, a.len())), i <= a.len(),
        forall|k: int| 0 <= k < a.len() ==> encodable((#[trigger] a[k]).0, d) && encodable(a[k].1, d),
        forall|k: int, j: int| 0 <= k < j < a.len() ==> !same_key((#[trigger] a[k]).0, (#[trigger] a[j]).0),
    ensures
        dec_m(s, q + enc_m(a, i).len(), (a.len() - i) as nat, a.subrange(0, i as int))
            == Some((a, q + enc_m(a, a.len()).len())),
        scan_n(s, q + enc_m(a, i).len(), (2 * (a.len() - i)) as nat, d) == Sc::At(q + enc_m(a, a.len()).len()),
    decreases a, 0nat, a.len() - i
{
    if i == a.len() {
        assert(a.subrange(0, i as int) =~= a);
    } else {
        let kv = a[i as int];
        lemma_enc_m_split(a, i + 1, a.len());
        let x = enc_m(a, a.len()).skip(enc_m(a, i + 1).len() as int);
        assert(enc_m(a, a.len()) =~= enc_m(a, i) + (enc(kv.0) + (enc(kv.1) + x)));
        lemma_holds_split(s, q, enc_m(a, i), enc(kv.0) + (enc(kv.1) + x));
        let p = q + enc_m(a, i).len();
        lemma_holds_split(s, p, enc(kv.0), enc(kv.1) + x);
        lemma_holds_split(s, p + enc(kv.0).len(), enc(kv.1), x);
        lemma_roundtrip(s, p, kv.0, d);
        lemma_roundtrip(s, p + enc(kv.0).len(), kv.1, d);
        lemma_enc_nonempty(kv.0);
        lemma_enc_nonempty(kv.1);
        lemma_roundtrip_m(s, q, a, i + 1, d);
        let acc = a.subrange(0, i as int);
        lemma_put_new(acc, kv.0, kv.1);
        assert(acc.push(kv) =~= a.subrange(0, i as int + 1));
        let n = (2 * (a.len() - i)) as nat;
        let p1 = p + enc(kv.0).len();
        let p2 = p1 + enc(kv.1).len();
        assert(scan_n(s, p, n, d) == scan_n(s, p1, (n - 1) as nat, d));
        assert(scan_n(s, p1, (n - 1) as nat, d) == scan_n(s, p2, (n - 2) as nat, d));
        assert((n - 2) as nat == (2 * (a.len() - (i + 1))) as nat);
    }
}

/// C02: decoding an encoding yields the value and consumes exactly its bytes,
/// whatever follows.
pub proof fn theorem_roundtrip(v: FV, tail: Seq<u8>, d: nat)
    requires encodable(v, d)
    ensures
        scan(enc(v) + tail, 0, d) == Sc::At(enc(v).len() as int),
        dec(enc(v) + tail, 0) == Some((v, enc(v).len() as int)),
{
    assert((enc(v) + tail).subrange(0, enc(v).len() as int) =~= enc(v));
    lemma_roundtrip(enc(v) + tail, 0, v, d);
}

/// C02: a strict prefix of an encoding is incomplete.
pub proof fn theorem_strict_prefix(v: FV, n: int, d: nat)
    requires encodable(v, d), 0 <= n < enc(v).len()
    ensures scan(enc(v).subrange(0, n), 0, d) is Inc
{
    let x = enc(v).subrange(0, n);
    assert(enc(v) + Seq::<u8>::empty() =~= enc(v));
    theorem_roundtrip(v, Seq::empty(), d);
    if scan(x, 0, d) is Bad {
        lemma_scan_bad(x, enc(v), 0, d);
    } else if scan(x, 0, d) is At {
        lemma_scan_bounds(x, 0, d);
        lemma_scan_agree(x, enc(v), 0, d);
    }
}

/// C03: a text can't be read as more than one message.
pub proof fn theorem_one_line(t: Seq<u8>, tail: Seq<u8>, b: u8)
    requires b == 43 || b == 45
    ensures scan(seq![b] + flat_text(t) + eol() + tail, 0, 0) == Sc::At(t.len() as int + 3)
{
    let f = flat_text(t);
    let s = seq![b] + f + eol() + tail;
    assert(flat_text(f) =~= f) by {
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] flat_text(f)[i] == f[i] by {
            assert(f[i] == flat(t[i]));
        }
    }
    assert(s.subrange(1, f.len() as int + 3) =~= f + eol());
    assert(holds(s, 1, f + eol()));
    lemma_text_enc(s, 1, f);
}

} // verus!
