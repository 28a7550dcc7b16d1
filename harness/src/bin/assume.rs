//! What the contracts of `verus/shim` and the axioms of `verus/spec` assume of the standard
//! library and of the dependencies, compared with what they do: exhaustively where the domain
//! is small, on generated values elsewhere. Nothing here is about the code of the repository.
use harness::*;
use std::io::Write;
use std::time::Duration;

fn must(ok: bool, what: impl Fn() -> String) {
    if !ok {
        println!("BROKEN {}", what());
        std::process::exit(4);
    }
}
/// `axiom_case`, `axiom_case_out`: a text maps to the concatenation of what its characters map to,
/// but for a final sigma, which is not ASCII either way.
fn case() -> u64 {
    let mut n = 0;
    for c in '\0'..=char::MAX {
        let s = c.to_string();
        let (l, u) = (s.to_lowercase(), s.to_uppercase());
        if c.is_ascii() {
            let b = c as u8;
            must(l.as_bytes() == [if b.is_ascii_uppercase() { b + 32 } else { b }] && u.as_bytes() == [if b.is_ascii_lowercase() { b - 32 } else { b }], || format!("the case of {:?}", c));
        } else {
            must(!l.is_empty() && !u.is_empty(), || format!("the case of {:?} is empty", c));
            must(!l.bytes().all(|b| b < 128 && b != b'k'), || format!("{:?} in lower case is ASCII", c));
            must(!u.bytes().all(|b| b"EPX".contains(&b)), || format!("{:?} in upper case is made of E, P, X", c));
        }
        n += 1;
    }
    n
}
/// `resp::char_len`
fn char_len(s: &[u8]) -> usize {
    let tail = |i: usize| (0x80..=0xbf).contains(&s[i]);
    match s.first() {
        None => 0,
        Some(0..=0x7f) => 1,
        Some(0xc2..=0xdf) => if s.len() >= 2 && tail(1) { 2 } else { 0 },
        Some(&b @ 0xe0..=0xef) => if s.len() >= 3 && tail(1) && tail(2) && (b != 0xe0 || s[1] >= 0xa0) && (b != 0xed || s[1] <= 0x9f) { 3 } else { 0 },
        Some(&b @ 0xf0..=0xf4) => if s.len() >= 4 && tail(1) && tail(2) && tail(3) && (b != 0xf0 || s[1] >= 0x90) && (b != 0xf4 || s[1] <= 0x8f) { 4 } else { 0 },
        _ => 0,
    }
}
fn utf8(mut s: &[u8]) -> bool {
    while !s.is_empty() {
        let n = char_len(s);
        if n == 0 { return false }
        s = &s[n..];
    }
    true
}
fn texts(r: &mut Rng, m: u64) -> u64 {
    let mut n = 0;
    let mut one = |s: &[u8]| {
        n += 1;
        must(std::str::from_utf8(s).is_ok() == utf8(s), || format!("UTF-8: {:?}", s));
        must(bytestring::ByteString::try_from(bytes::Bytes::from(s.to_vec())).is_ok() == utf8(s), || format!("ByteString: {:?}", s));
        if let Ok(t) = std::str::from_utf8(s) {
            must(t.chars().count() == s.iter().filter(|b| !(0x80..=0xbf).contains(*b)).count(), || format!("characters of {:?}", s));
            for i in 0..=s.len() + 1 {
                let b = i == 0 || i == s.len() || (i < s.len() && !(0x80..=0xbf).contains(&s[i]));
                must(t.is_char_boundary(i) == b, || format!("boundary {} of {:?}", i, s));
            }
        }
    };
    for a in 0..=255u8 { for b in 0..=255u8 { one(&[a]); one(&[a, b]); } }
    let edges = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    for a in edges { for b in edges { for c in edges { one(&[a, b, c]); for d in edges { one(&[a, b, c, d]); } } } }
    for _ in 0..m {
        let l = r.below(12) as usize;
        let s: Vec<u8> = (0..l).map(|_| edges[r.below(edges.len() as u64) as usize]).collect();
        one(&s);
    }
    n
}
/// Decimal digits whose value fits.
fn number(s: &[u8], most: usize) -> Option<u64> {
    if s.is_empty() || s.len() > most || !s.iter().all(u8::is_ascii_digit) { return None }
    let mut v = 0u128;
    for b in s { v = (v * 10 + (b - 48) as u128).min(1 << 100); }
    u64::try_from(v).ok()
}
fn numbers(r: &mut Rng, m: u64) -> u64 {
    let mut n = 0;
    let mut one = |s: &[u8]| {
        n += 1;
        must(atoi_simd::parse::<u64>(s).ok() == number(s, 20), || format!("atoi_simd::parse of {:?}", s));
        if let Ok(t) = std::str::from_utf8(s) {
            let d = t.strip_prefix('+').unwrap_or(t);
            must(t.parse::<u64>().ok() == number(d.as_bytes(), usize::MAX), || format!("parse of {:?}", t));
        }
    };
    for l in 0..=24usize { for p in 0..l.max(1) { for b in 0..=255u8 { for base in [b'0', b'1', b'9'] {
        let mut v = vec![base; l];
        if l > 0 { v[p] = b; }
        one(&v);
    } } } }
    for k in 0..64 { for d in [-1i128, 0, 1] {
        let v = (1i128 << k) + d;
        one(v.to_string().as_bytes());
        one((u64::MAX as i128 + 1 - v).to_string().as_bytes());
    } }
    for _ in 0..m {
        let l = r.below(23) as usize;
        let s: Vec<u8> = (0..l).map(|_| b"0123456789012345678901234567890123456789 +-.eE\r\n"[r.below(48) as usize]).collect();
        one(&s);
        let v = r.next() >> r.below(64);
        // `dig`: the last digit, after those of a tenth
        let t = v.to_string();
        must(if v < 10 { t.as_bytes() == [48 + v as u8] } else { t == format!("{}{}", v / 10, (48 + v % 10) as u8 as char) }, || format!("to_string of {}", v));
        // `overlay`
        let (l, at) = (r.below(30) as usize, r.below(30) as usize);
        let mut c = std::io::Cursor::new(vec![7u8; l]);
        if at <= l {
            c.set_position(at as u64);
            write!(&mut c, "{}", v).unwrap();
            let mut w = vec![7u8; at];
            w.extend(t.as_bytes());
            let end = w.len();
            while w.len() < l { w.push(7); }
            must(c.position() as usize == end && *c.get_ref() == w, || format!("write! of {} at {} of {}", v, at, l));
        }
    }
    n
}
/// `spec::world::ticks`
fn clock(r: &mut Rng, m: u64) -> u64 {
    let one = |d: Duration| {
        let (s, ns) = (d.as_secs() as u128, d.subsec_nanos() as u128);
        let want = (s % (1 << 32)) * (1 << 32) + ns * 9223372037 / (1 << 31);
        let got = coarsetime::Duration::from(d).as_ticks();
        must(got as u128 == want, || format!("{:?} is {} ticks instead of {}", d, got, want));
    };
    for s in [0, 1, 2, 59, 60, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, u64::MAX] { for ns in [0, 1, 999, 1_000_000, 500_000_000, 999_999_999] { one(Duration::new(s, ns)); } }
    for _ in 0..m { one(Duration::new(r.next() >> r.below(64), (r.next() % 1_000_000_000) as u32)); }
    let mut last = coarsetime::Instant::now();
    for _ in 0..2000 {
        let t = coarsetime::Instant::now();
        must(t >= last, || "the clock goes back".to_string());
        last = t;
    }
    m + 2060
}
fn maps(r: &mut Rng, m: u64) -> u64 {
    for _ in 0..m {
        let mut x = indexmap::IndexMap::new();
        let mut w: Vec<(u64, u64)> = vec![];
        for i in 0..r.below(12) {
            let k = r.below(6);
            x.insert(k, i);
            match w.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = i, None => w.push((k, i)) }
        }
        let got: Vec<(u64, u64)> = x.iter().map(|(k, v)| (*k, *v)).collect();
        must(got == w && x.len() == w.len(), || format!("entries of a map: {:?}", got));
        let mut y = indexmap::IndexMap::new();
        for (k, v) in w.iter().rev() { y.insert(*k, *v); }
        must(x == y, || format!("equality of maps: {:?}", got));
        let b = bytes::Bytes::from((0..r.below(20) as u8).collect::<Vec<u8>>());
        let (i, j) = (r.below(b.len() as u64 + 1) as usize, r.below(b.len() as u64 + 1) as usize);
        if i <= j { must(b.slice(i..j)[..] == b[i..j], || format!("slice {}..{} of {:?}", i, j, b)); }
        let mut c = bytes::BytesMut::from(&b[..]);
        let head = c.split_to(i);
        must(head[..] == b[..i] && c[..] == b[i..], || format!("split_to {} of {:?}", i, b));
        let rest = c.split_off(0);
        must(c.is_empty() && rest[..] == b[i..], || "split_off".to_string());
        let a: std::net::SocketAddr = if r.below(2) == 0 {
            std::net::SocketAddr::new(std::net::IpAddr::V4((r.next() as u32).into()), r.next() as u16)
        } else {
            let ip = (((r.next() >> r.below(64)) as u128) << 64 | r.next() as u128).into();
            std::net::SocketAddr::V6(std::net::SocketAddrV6::new(ip, r.next() as u16, 0, r.below(3) as u32))
        };
        must(a.to_string().bytes().all(|b| (0x21..=0x7e).contains(&b)), || format!("the text of {}", a));
    }
    m
}
fn main() {
    let (_, seed, deep) = args();
    let mut r = Rng::new(seed);
    let k = if deep { 40 } else { 1 };
    println!("COUNT case mappings of all characters: {}", case());
    println!("COUNT UTF-8, boundaries, characters: {}", texts(&mut r, 30_000 * k));
    println!("COUNT numbers read and written: {}", numbers(&mut r, 30_000 * k));
    println!("COUNT lengths of time: {}", clock(&mut r, 30_000 * k));
    println!("COUNT maps, buffers, addresses: {}", maps(&mut r, 10_000 * k));
}
