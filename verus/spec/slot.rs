//! The hash slot of a key, and how the slots are shared out.
use vstd::prelude::*;
verus! {

/// One bit of the division by the polynomial.
pub open spec fn crc_bit(r: u16, poly: u16) -> u16 {
    if r & 0x8000 != 0 { (r << 1) ^ poly } else { r << 1 }
}
pub open spec fn crc_bits(r: u16, poly: u16, n: nat) -> u16
    decreases n
{
    if n == 0 { r } else { crc_bits(crc_bit(r, poly), poly, (n - 1) as nat) }
}
/// The remainder after the first `n` bytes.
pub open spec fn crc_from(init: u16, poly: u16, b: Seq<u8>, n: nat) -> u16
    decreases n
{
    if n == 0 { init } else { crc_bits(crc_from(init, poly, b, (n - 1) as nat) ^ ((b[n - 1] as u16) << 8), poly, 8) }
}
/// CRC16 (XMODEM): polynomial x^16 + x^12 + x^5 + 1, from 0, nothing reflected, nothing added.
pub open spec fn crc16(b: Seq<u8>) -> u16 { crc_from(0, 0x1021, b, b.len()) }

pub open spec fn slots() -> int { 16384 }

/// The slot of a key.
pub open spec fn slot_of(key: Seq<u8>) -> int { crc16(key) as int % slots() }

pub proof fn theorem_slot(key: Seq<u8>)
    ensures 0 <= slot_of(key) < 16384
{ }

/// The range of part `i` of `n`.
pub open spec fn part_lo(n: int, i: int) -> int { i * (slots() / n) }
pub open spec fn part_hi(n: int, i: int) -> int {
    if i == n - 1 { slots() } else { (i + 1) * (slots() / n) }
}
/// Slot `s` belongs to part `i` of `n`.
pub open spec fn in_part(n: int, i: int, s: int) -> bool { part_lo(n, i) <= s < part_hi(n, i) }
proof fn lemma_order(n: int, i: int, j: int)
    requires 1 <= n <= 16384, 0 <= i <= j < n
    ensures part_lo(n, i) <= part_lo(n, j), part_lo(n, i) < part_hi(n, i) <= slots()
{
    let q = slots() / n;
    assert(q >= 1) by (nonlinear_arith) requires q == 16384int / n, 1 <= n <= 16384;
    assert(q * n <= 16384) by (nonlinear_arith) requires q == 16384int / n, 1 <= n;
    assert(i * q <= j * q) by (nonlinear_arith) requires i <= j, q >= 1;
    assert((i + 1) * q <= n * q) by (nonlinear_arith) requires i + 1 <= n, q >= 1;
    assert((i + 1) * q == i * q + q) by (nonlinear_arith);
    assert(i * q < 16384) by (nonlinear_arith) requires i < n, q * n <= 16384, q >= 1, i >= 0;
}
/// The ends of a range, as the code computes them.
pub proof fn lemma_part(n: int, i: int)
    requires 1 <= n <= 16384, 0 <= i < n
    ensures
        16384int / n >= 1, 16384int / n <= 16384, 0 <= 16384int % n < n,
        0 <= i * (16384int / n) <= 16384,
        0 <= (i + 1) * (16384int / n) <= 16384,
        i == n - 1 ==> (i + 1) * (16384int / n) + 16384int % n == 16384,
        part_lo(n, i) == i * (16384int / n),
        (i + 1) * (16384int / n) == i * (16384int / n) + 16384int / n,
        (16384int / n) * i == i * (16384int / n),
        (16384int / n) * (i + 1) == (i + 1) * (16384int / n),
        n * (16384int / n) + 16384int % n == 16384,
        (16384int / n) * n == n * (16384int / n),
        i < n - 1 ==> part_hi(n, i) == (i + 1) * (16384int / n),
        i == n - 1 ==> part_hi(n, i) == 16384,
{
    let q = slots() / n;
    assert(1 <= q <= 16384) by (nonlinear_arith) requires q == 16384int / n, 1 <= n <= 16384;
    assert(q * n <= 16384) by (nonlinear_arith) requires q == 16384int / n, 1 <= n;
    assert(n * q == q * n) by (nonlinear_arith);
    assert(i * q <= n * q && 0 <= i * q) by (nonlinear_arith) requires 0 <= i <= n, q >= 1;
    assert((i + 1) * q <= n * q && 0 <= (i + 1) * q) by (nonlinear_arith) requires 0 <= i, i + 1 <= n, q >= 1;
    assert(n * q + 16384int % n == 16384) by (nonlinear_arith) requires q == 16384int / n, 1 <= n;
    assert((i + 1) * q == i * q + q) by (nonlinear_arith);
    assert(q * i == i * q) by (nonlinear_arith);
    assert(q * (i + 1) == (i + 1) * q) by (nonlinear_arith);
}
/// The ranges follow one another, from the first slot to the last.
pub proof fn theorem_consecutive(n: int, i: int)
    requires 1 <= n <= 16384, 0 <= i < n
    ensures
        part_lo(n, 0) == 0,
        part_lo(n, i) < part_hi(n, i),
        part_hi(n, n - 1) == 16384,
        i < n - 1 ==> part_hi(n, i) == part_lo(n, i + 1),
{
    lemma_order(n, i, i);
    assert(0 * (slots() / n) == 0) by (nonlinear_arith);
}
/// Every slot is in exactly one range.
pub proof fn theorem_partition(n: int, s: int)
    requires 1 <= n <= 16384, 0 <= s < 16384
    ensures
        exists|i: int| 0 <= i < n && #[trigger] in_part(n, i, s),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] in_part(n, i, s) && #[trigger] in_part(n, j, s) ==> i == j,
{
    let q = slots() / n;
    assert(q >= 1) by (nonlinear_arith) requires q == 16384int / n, 1 <= n <= 16384;
    let k = s / q;
    assert(k * q <= s < (k + 1) * q && k >= 0) by (nonlinear_arith) requires k == s / q, q >= 1, s >= 0;
    let i = if k >= n - 1 { n - 1 } else { k };
    assert(i * q <= s) by (nonlinear_arith) requires i <= k, k * q <= s, q >= 1;
    assert(in_part(n, i, s));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] in_part(n, i, s) && #[trigger] in_part(n, j, s) implies i == j by {
        if i < j { lemma_apart(n, i, j, s); }
        if j < i { lemma_apart(n, j, i, s); }
    }
}
proof fn lemma_apart(n: int, i: int, j: int, s: int)
    requires 1 <= n <= 16384, 0 <= i < j < n, s < part_hi(n, i), part_lo(n, j) <= s
    ensures false
{
    let q = slots() / n;
    assert(q >= 1) by (nonlinear_arith) requires q == 16384int / n, 1 <= n <= 16384;
    assert((i + 1) * q <= j * q) by (nonlinear_arith) requires i + 1 <= j, q >= 1;
}
} // verus!
