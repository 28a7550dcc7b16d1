//! Helpers of the replay harness: a generator, and an independent reading of the
//! wire protocol.
use std::cell::RefCell;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

thread_local! {
    /// What is being tried: reported when the code under test panics.
    pub static NOW: RefCell<String> = RefCell::new(String::new());
}
pub fn now(s: impl Into<String>) {
    NOW.with(|n| *n.borrow_mut() = s.into());
}
/// A failing input: reported on stdout, and the end of the run.
pub fn fail(prop: &str, what: &str) -> ! {
    println!("FAIL {} {}", prop, what.replace('\n', " "));
    std::process::exit(1)
}
pub fn setup(prop: &'static str) {
    std::panic::set_hook(Box::new(move |i| {
        let at = NOW.with(|n| n.borrow().clone());
        println!("FAIL {} panic: {} while: {}", prop, i.to_string().replace('\n', " "), at);
        std::process::exit(1)
    }));
}
pub fn args() -> (String, u64, bool) {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    (a.get(1).cloned().unwrap_or_default(), seed, deep)
}

pub fn show(b: &[u8]) -> String {
    let mut o = String::from("b\"");
    for (i, c) in b.iter().enumerate() {
        if i > 400 {
            o.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        for e in std::ascii::escape_default(*c) {
            o.push(e as char)
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Simple(Vec<u8>),
    Error(Vec<u8>),
    Int(u64),
    Bulk(Vec<u8>),
    Null,
    Array(Vec<V>),
    Map(Vec<(V, V)>),
}

/// The encoding of a value, with line breaks of texts sent as spaces.
pub fn enc(v: &V, o: &mut Vec<u8>) {
    let line = |t: &[u8], o: &mut Vec<u8>| {
        o.extend(t.iter().map(|b| if *b == 13 || *b == 10 { 32 } else { *b }));
        o.extend(b"\r\n");
    };
    match v {
        V::Simple(t) => { o.push(b'+'); line(t, o) }
        V::Error(t) => { o.push(b'-'); line(t, o) }
        V::Int(n) => { o.push(b':'); line(n.to_string().as_bytes(), o) }
        V::Null => o.extend(b"$-1\r\n"),
        V::Bulk(t) => {
            o.push(b'$');
            line(t.len().to_string().as_bytes(), o);
            o.extend(t);
            o.extend(b"\r\n");
        }
        V::Array(a) => {
            o.push(b'*');
            line(a.len().to_string().as_bytes(), o);
            for x in a { enc(x, o) }
        }
        V::Map(m) => {
            o.push(b'%');
            line(m.len().to_string().as_bytes(), o);
            for (k, x) in m { enc(k, o); enc(x, o) }
        }
    }
}
pub fn encoded(v: &V) -> Vec<u8> {
    let mut o = vec![];
    enc(v, &mut o);
    o
}

/// Equality of values as the server sees it: the order of a map is ignored.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::Map(x), V::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| y.iter().any(|(l, w)| same(k, l) && same(v, w)))
        }
        _ => a == b,
    }
}

pub enum Rd {
    Inc,
    Bad,
    At(usize),
}
/// Numbers of which the protocol does not say whether they are acceptable.
#[derive(Clone, Copy, PartialEq)]
pub enum Odd { No, Yes }

fn line_end(s: &[u8], p: usize) -> Option<usize> {
    let mut i = p;
    while i + 1 < s.len() {
        if s[i] == 13 && s[i + 1] == 10 { return Some(i) }
        i += 1;
    }
    None
}
enum Num { Inc, Bad, Odd, At(u64, usize) }
fn num(s: &[u8], p: usize) -> Num {
    match line_end(s, p) {
        None => Num::Inc,
        Some(i) => {
            let t = &s[p..i];
            if t.is_empty() || !t.iter().all(|b| b.is_ascii_digit()) { return Num::Bad }
            if t.len() > 1 && t[0] == b'0' { return Num::Odd }
            match std::str::from_utf8(t).unwrap().parse::<u64>() {
                Ok(n) => Num::At(n, i + 2),
                Err(_) => Num::Bad,
            }
        }
    }
}
/// Where the message that starts at `p` ends. `None`: not settled here.
pub fn scan(s: &[u8], p: usize, d: usize) -> Option<Rd> {
    if p >= s.len() { return Some(Rd::Inc) }
    Some(match s[p] {
        b'+' | b'-' => match line_end(s, p + 1) { None => Rd::Inc, Some(i) => Rd::At(i + 2) },
        b':' => match num(s, p + 1) { Num::Inc => Rd::Inc, Num::Bad => Rd::Bad, Num::Odd => return None, Num::At(_, q) => Rd::At(q) },
        b'$' => {
            if p + 1 >= s.len() { return Some(Rd::Inc) }
            if s[p + 1] == b'-' {
                if p + 5 <= s.len() { Rd::At(p + 5) } else { Rd::Inc }
            } else {
                match num(s, p + 1) {
                    Num::Inc => Rd::Inc, Num::Bad => Rd::Bad, Num::Odd => return None,
                    Num::At(n, q) => {
                        if n > u64::MAX - 2 { Rd::Bad }
                        else if (n as u128) + 2 + (q as u128) <= s.len() as u128 { Rd::At(q + n as usize + 2) }
                        else { Rd::Inc }
                    }
                }
            }
        }
        c @ (b'*' | b'%') => match num(s, p + 1) {
            Num::Inc => Rd::Inc, Num::Bad => Rd::Bad, Num::Odd => return None,
            Num::At(n, q) => {
                if d == 0 { return None }
                let n = if c == b'%' { if n > u64::MAX / 2 { return Some(Rd::Bad) } else { 2 * n } } else { n };
                let mut q = q;
                for _ in 0..n {
                    match scan(s, q, d - 1) {
                        Some(Rd::At(e)) => q = e,
                        x => return x,
                    }
                }
                Rd::At(q)
            }
        },
        _ => Rd::Bad,
    })
}
/// The value of the complete message at `p`.
pub fn dec(s: &[u8], p: usize) -> Option<(V, usize)> {
    match s[p] {
        b'+' | b'-' => {
            let i = line_end(s, p + 1)?;
            let t = s[p + 1..i].to_vec();
            std::str::from_utf8(&t).ok()?;
            Some((if s[p] == b'+' { V::Simple(t) } else { V::Error(t) }, i + 2))
        }
        b':' => match num(s, p + 1) { Num::At(n, q) => Some((V::Int(n), q)), _ => None },
        b'$' => {
            if s[p + 1] == b'-' {
                if s.get(p + 1..p + 5)? == b"-1\r\n" { Some((V::Null, p + 5)) } else { None }
            } else {
                match num(s, p + 1) {
                    Num::At(n, q) => Some((V::Bulk(s[q..q + n as usize].to_vec()), q + n as usize + 2)),
                    _ => None,
                }
            }
        }
        b'*' => match num(s, p + 1) {
            Num::At(n, mut q) => {
                let mut o = vec![];
                for _ in 0..n { let (v, e) = dec(s, q)?; o.push(v); q = e; }
                Some((V::Array(o), q))
            }
            _ => None,
        },
        b'%' => match num(s, p + 1) {
            Num::At(n, mut q) => {
                let mut o: Vec<(V, V)> = vec![];
                for _ in 0..n {
                    let (k, e) = dec(s, q)?;
                    let (v, f) = dec(s, e)?;
                    q = f;
                    match o.iter_mut().find(|(l, _)| same(l, &k)) {
                        Some(x) => x.1 = v,
                        None => o.push((k, v)),
                    }
                }
                Some((V::Map(o), q))
            }
            _ => None,
        },
        _ => None,
    }
}

const TEXTS: &[&[u8]] = &[b"", b"a", b"OK", b"hello world", "h\u{e9}llo \u{1F600}".as_bytes(), b"-1", b"+", b"$3", b"*", b"\t\x00x", b"12345"];
/// A length close to one where something may change.
pub fn size(r: &mut Rng, max: u64) -> u64 {
    let n = match r.below(3) {
        0 => (1u64 << (2 + r.below(15))).wrapping_add(r.below(5)).wrapping_sub(2),
        1 => 10u64.pow(1 + r.below(5) as u32) + r.below(4) - 2,
        _ => r.below(max + 1),
    };
    n.min(max)
}
/// Text of that many bytes, about, of characters of every length.
pub fn wide(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = size(r, max) as usize;
    let c = *r.pick(&["\u{1F600}", "\u{e9}", "\u{20ac}", "x", "ab\u{e9}"]);
    let mut s = vec![b'y'; r.below(4) as usize];
    while s.len() < n { s.extend(c.as_bytes()) }
    s
}
pub fn text(r: &mut Rng) -> Vec<u8> {
    if r.below(12) == 0 { return wide(r, 1100) }
    if r.below(3) == 0 {
        let n = r.below(40);
        (0..n).map(|_| 32 + r.below(95) as u8).collect()
    } else {
        r.pick(TEXTS).to_vec()
    }
}
pub fn blob(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = match r.below(7) { 0 => 0, 1 => 1, 2 => r.below(10), 3 => r.below(100), 4 => r.below(max / 4 + 1), 5 => size(r, max), _ => r.below(max + 1) };
    (0..n).map(|_| match r.below(6) { 0 => 13, 1 => 10, 2 => b'$', _ => r.next() as u8 }).collect()
}
pub fn number(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(10),
        1 => u64::MAX - r.below(3),
        2 => 10u64.pow(r.below(20) as u32),
        3 => 10u64.pow(r.below(19) as u32 + 1) - 1,
        4 => 1u64 << r.below(64),
        _ => r.next(),
    }
}
pub fn value(r: &mut Rng, d: usize, max: u64) -> V {
    match r.below(if d == 0 { 5 } else { 9 }) {
        0 => V::Simple(text(r)),
        1 => V::Error(text(r)),
        2 => V::Int(number(r)),
        3 => V::Null,
        4 => V::Bulk(blob(r, max)),
        5 | 6 => {
            let n = if r.below(8) == 0 { r.below(30) } else { r.below(4) };
            V::Array((0..n).map(|_| value(r, d - 1, max / 2)).collect())
        }
        _ => {
            let n = r.below(5);
            let mut m: Vec<(V, V)> = vec![];
            for _ in 0..n {
                let k = value(r, d - 1, max / 2);
                let v = value(r, d - 1, max / 2);
                if !m.iter().any(|(l, _)| same(l, &k)) { m.push((k, v)) }
            }
            V::Map(m)
        }
    }
}

pub mod model;
pub mod net;
