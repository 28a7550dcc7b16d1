//! Decoding (C02) and encoding (C03) of values, in process.
use std::io::Cursor;
use bytes::{Bytes, BytesMut};
use bytestring::ByteString;
use harness::*;
use indexmap::IndexMap;
use monoio::buf::{IoBuf, IoVecBuf};
use monoio::io::AsyncWriteRent;
use monoio::BufResult;
use roster::application::server::frame::{Error, Frame};
use roster::application::server::verif::write_frame;

fn v_of(f: &Frame) -> V {
    match f {
        Frame::Simple(s) => V::Simple(s.as_bytes().to_vec()),
        Frame::Error(s) => V::Error(s.as_bytes().to_vec()),
        Frame::Integer(n) => V::Int(*n),
        Frame::Bulk(b) => V::Bulk(b.to_vec()),
        Frame::Null => V::Null,
        Frame::Array(a) => V::Array(a.iter().map(v_of).collect()),
        Frame::Map(m) => V::Map(m.iter().map(|(k, v)| (v_of(k), v_of(v))).collect()),
    }
}
fn f_of(v: &V) -> Frame {
    let t = |b: &Vec<u8>| ByteString::try_from(Bytes::from(b.clone())).unwrap();
    match v {
        V::Simple(s) => Frame::Simple(t(s)),
        V::Error(s) => Frame::Error(t(s)),
        V::Int(n) => Frame::Integer(*n),
        V::Bulk(b) => Frame::Bulk(Bytes::from(b.clone())),
        V::Null => Frame::Null,
        V::Array(a) => Frame::Array(a.iter().map(f_of).collect()),
        V::Map(m) => {
            let mut o = IndexMap::new();
            for (k, x) in m { o.insert(f_of(k), f_of(x)); }
            Frame::Map(o)
        }
    }
}

/// check, then parse, as a connection does.
enum Got { Inc, Bad, Val(V, usize) }
fn run(s: &[u8]) -> Got {
    let b = BytesMut::from(s);
    let mut c = Cursor::new(&b);
    match Frame::check(&mut c) {
        Err(Error::Incomplete) => Got::Inc,
        Err(_) => Got::Bad,
        Ok(_) => {
            let n = c.position() as usize;
            if n > s.len() { fail("C02", &format!("check of {} goes past the end: {}", show(s), n)) }
            let mut c = Cursor::new(Bytes::copy_from_slice(&s[..n]));
            match Frame::parse(&mut c) {
                Err(_) => Got::Bad,
                Ok(f) => {
                    if c.position() as usize != n { fail("C02", &format!("{}: checked {} bytes, parsed {}", show(s), n, c.position())) }
                    Got::Val(v_of(&f), n)
                }
            }
        }
    }
}
fn expect(s: &[u8]) -> Option<Got> {
    Some(match scan(s, 0, 100)? {
        Rd::Inc => Got::Inc,
        Rd::Bad => Got::Bad,
        Rd::At(n) => match dec(&s[..n], 0) {
            None => Got::Bad,
            Some((v, m)) => { assert!(n == m); Got::Val(v, n) }
        },
    })
}
fn name(g: &Got) -> String {
    match g { Got::Inc => "incomplete".into(), Got::Bad => "rejected".into(), Got::Val(v, n) => format!("{:?} in {} bytes", v, n) }
}
fn one(s: &[u8]) {
    let e = match expect(s) { Some(e) => e, None => return };
    now(format!("decoding {}", show(s)));
    let g = run(s);
    let ok = match (&e, &g) {
        (Got::Inc, Got::Inc) | (Got::Bad, Got::Bad) => true,
        (Got::Val(a, n), Got::Val(b, m)) => a == b && n == m,
        _ => false,
    };
    if !ok {
        fail("C02", &format!("decoding {}: expected {}, got {}", show(s), name(&e), name(&g)))
    }
}

fn c02(seed: u64, deep: bool) -> u64 {
    setup("C02");
    let mut r = Rng::new(seed);
    let mut n = 0;
    // every short byte string over the interesting bytes
    let alpha = b"+-:$*%01239\r\nx\xff";
    let len = if deep { 6 } else { 5 };
    let mut idx = vec![0usize; 0];
    for l in 0..=len {
        idx.clear();
        idx.resize(l, 0);
        loop {
            let s: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
            one(&s);
            n += 1;
            let mut k = 0;
            while k < l && idx[k] == alpha.len() - 1 { idx[k] = 0; k += 1; }
            if k == l { break }
            idx[k] += 1;
        }
    }
    // values, their prefixes, what follows them, and damaged encodings
    for i in 0..(if deep { 200_000 } else { 12_000 }) {
        let big = i % 500 == 0;
        let v = value(&mut r, if i % 7 == 0 { 5 } else { 2 }, if big { 200_000 } else { 300 });
        let s = encoded(&v);
        let mut t = s.clone();
        if i % 2 == 0 { t.extend(blob(&mut r, 30)); }
        now(format!("decoding {}", show(&t)));
        match run(&t) {
            Got::Val(w, m) if w == v && m == s.len() => {}
            g => fail("C02", &format!("decoding {}, the encoding of {:?} in {} bytes, gives {}", show(&t), v, s.len(), name(&g))),
        }
        let step = (s.len() / 60).max(1);
        let mut p = 0;
        while p < s.len() {
            now(format!("decoding {}", show(&s[..p])));
            match run(&s[..p]) {
                Got::Inc => {}
                g => fail("C02", &format!("decoding {}, a prefix of an encoding, gives {}", show(&s[..p]), name(&g))),
            }
            p += if step == 1 || p + 12 > s.len() || p < 20 { 1 } else { step };
            n += 1;
        }
        for _ in 0..4 {
            let mut t = s.clone();
            for _ in 0..=r.below(2) {
                if t.is_empty() { break }
                let k = r.below(t.len().min(60) as u64) as usize;
                match r.below(3) {
                    0 => { t.remove(k); }
                    1 => t.insert(k, *r.pick(alpha)),
                    _ => t[k] = *r.pick(alpha),
                }
            }
            one(&t);
            n += 1;
        }
    }
    // lengths and numbers
    for d in [10u128.pow(19), 1 << 63, 1 << 64, (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 3, 1 << 65, 10u128.pow(25), (1 << 63) + 1, 1 << 32, (1u128 << 64) + 5] {
        for c in [":", "$", "*", "%"] {
            for tail in ["", "\r\n", "\r\nabc\r\n", "\r\n:1\r\n"] {
                // a long array of nothing is incomplete, not an allocation
                one(format!("{}{}{}", c, d, tail).as_bytes());
                n += 1;
            }
        }
    }
    for k in 0..20u32 {
        for d in [10u64.pow(k), 10u64.pow(k) - 1, u64::MAX / 10u64.pow(k)] {
            one(format!(":{}\r\n", d).as_bytes());
            n += 1;
        }
    }
    for d in 1..=20 {
        let mut s = "*1\r\n".repeat(d).into_bytes();
        s.extend(b":7\r\n");
        one(&s);
        let mut s = "%1\r\n+k\r\n".repeat(d).into_bytes();
        s.extend(b":7\r\n");
        one(&s);
        let mut s = "%1\r\n".repeat(d).into_bytes();
        for _ in 0..=d { s.extend(b":7\r\n"); }
        one(&s);
        n += 3;
    }
    n
}

/// Takes a few bytes at a time.
struct Slow { got: Vec<u8>, r: Rng, max: u64, flushed: bool }
impl AsyncWriteRent for Slow {
    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
        let n = buf.bytes_init();
        let b = unsafe { std::slice::from_raw_parts(buf.read_ptr(), n) };
        let k = if n == 0 { 0 } else { (1 + self.r.below(self.max) as usize).min(n) };
        self.got.extend_from_slice(&b[..k]);
        self.flushed = false;
        (Ok(k), buf)
    }
    async fn writev<T: IoVecBuf>(&mut self, buf: T) -> BufResult<usize, T> {
        (Err(std::io::ErrorKind::Unsupported.into()), buf)
    }
    async fn flush(&mut self) -> std::io::Result<()> { self.flushed = true; Ok(()) }
    async fn shutdown(&mut self) -> std::io::Result<()> { Ok(()) }
}

async fn send(v: &V, r: &mut Rng, max: u64) {
    let want = encoded(v);
    now(format!("encoding {:?}", v).chars().take(600).collect::<String>());
    let mut w = Slow { got: vec![], r: Rng::new(r.next()), max, flushed: true };
    if let Err(e) = write_frame(&mut w, &f_of(v)).await {
        fail("C03", &format!("sending {} failed: {}", show(&want), e))
    }
    if w.got != want {
        fail("C03", &format!("a writer that takes up to {} bytes at a time got {} instead of {}", max, show(&w.got), show(&want)))
    }
    if !w.flushed { fail("C03", &format!("{} sent, but not flushed", show(&want))) }
}
async fn c03(seed: u64, deep: bool) -> u64 {
    setup("C03");
    let mut r = Rng::new(seed);
    let mut n = 0;
    let texts: &[&[u8]] = &[b"", b"\r", b"\n", b"\r\n", b"a\r\nb", b"a\n", b"\n+OK\r\n", b"x\r\r\ny", "\u{e9}\r\u{1F600}".as_bytes()];
    for t in texts {
        for max in [1, 3, 1 << 40] {
            send(&V::Simple(t.to_vec()), &mut r, max).await;
            send(&V::Error(t.to_vec()), &mut r, max).await;
            send(&V::Bulk(t.to_vec()), &mut r, max).await;
            send(&V::Array(vec![V::Simple(t.to_vec()), V::Int(1)]), &mut r, max).await;
            n += 4;
        }
    }
    for k in 0..20u32 {
        for d in [10u64.pow(k), 10u64.pow(k) - 1, u64::MAX / 10u64.pow(k), u64::MAX - k as u64] {
            send(&V::Int(d), &mut r, 1 << 40).await;
            n += 1;
        }
    }
    for len in (0..40).chain([99, 100, 101, 999, 1000, 1023, 1024, 4095, 4096, 4097, 8179, 8180, 8181, 8190, 8191, 8192, 8193, 8200, 9999, 10000, 16384, 65535, 65536, 100000, 1000000]) {
        let b: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
        send(&V::Bulk(b.clone()), &mut r, 1 << 40).await;
        send(&V::Bulk(b.clone()), &mut r, 5000).await;
        if len <= 10000 {
            send(&V::Simple(vec![b's'; len]), &mut r, 100).await;
            send(&V::Array((0..len as u64).map(V::Int).collect()), &mut r, 700).await;
            send(&V::Map((0..(len as u64).min(1000)).map(|i| (V::Int(i), V::Null)).collect()), &mut r, 700).await;
        }
        n += 5;
    }
    for i in 0..(if deep { 100_000 } else { 6_000 }) {
        let v = value(&mut r, if i % 7 == 0 { 5 } else { 2 }, if i % 300 == 0 { 100_000 } else { 300 });
        let max = *r.pick(&[1, 2, 7, 100, 1 << 40]);
        send(&v, &mut r, max).await;
        n += 1;
    }
    n
}

fn main() {
    let (what, seed, deep) = args();
    let n = match what.as_str() {
        "C02" => c02(seed, deep),
        "C03" => monoio::RuntimeBuilder::<monoio::FusionDriver>::new().build().unwrap().block_on(c03(seed, deep)),
        _ => panic!("frames C02|C03"),
    };
    println!("DONE {}", n);
}
