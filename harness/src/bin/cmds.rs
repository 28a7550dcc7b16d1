//! Commands, in process: what is accepted (C05), deadlines (C07), slots (C12).
use bytes::Bytes;
use bytestring::ByteString;
use harness::model::{settled, want, Cmd, Want};
use harness::*;
use indexmap::IndexMap;
use roster::application::server::frame::Frame;
use roster::application::server::verif::{Command, CommandExecution};
use roster::infrastructure::hash::crc_hash;

fn f_of(v: &V) -> Frame {
    let t = |b: &Vec<u8>| ByteString::try_from(Bytes::from(b.clone())).unwrap();
    match v {
        V::Simple(s) => Frame::Simple(t(s)),
        V::Error(s) => Frame::Error(t(s)),
        V::Int(n) => Frame::Integer(*n),
        V::Bulk(b) => Frame::Bulk(Bytes::from(b.clone())),
        V::Null => Frame::Null,
        V::Array(a) => Frame::Array(a.iter().map(f_of).collect()),
        V::Map(m) => {
            let mut o = IndexMap::new();
            for (k, x) in m { o.insert(f_of(k), f_of(x)); }
            Frame::Map(o)
        }
    }
}
/// CRC16, XMODEM: polynomial 0x1021, initial value 0, one bit at a time.
fn crc(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b {
        c ^= (*x as u16) << 8;
        for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 } }
    }
    c
}
fn slot(c: &Cmd) -> Option<u16> {
    match c { Cmd::Set(k, ..) | Cmd::Get(k) => Some(crc(k) % 16384), _ => None }
}
fn c05(r: &mut Rng, n: u64) -> u64 {
    for i in 0..n {
        let v = if i % 40 == 0 { value(r, 2, 30) } else { model::request(r) };
        let w = match settled(&v) { Want::Unsettled => { match want(&v) { Want::Run(c) => Want::Run(c), _ => continue } } w => w };
        now(format!("the request {}", show(&encoded(&v))));
        match (&w, Command::from_frame(f_of(&v))) {
            (Want::Reject, Ok(c)) => fail("C05", &format!("the request {} is accepted, as {:?}", show(&encoded(&v)), c)),
            (Want::Run(c), Err(e)) => fail("C05", &format!("the request {} is rejected ({}), and spells {:?}", show(&encoded(&v)), e, c)),
            _ => (),
        }
    }
    n
}
fn c12(r: &mut Rng, n: u64) -> u64 {
    let one = |k: &[u8]| {
        now(format!("the key {}", show(k)));
        let h = crc_hash(k);
        if h != crc(k) % 16384 { fail("C12", &format!("crc_hash of {} is {} instead of {}", show(k), h, crc(k) % 16384)) }
        if std::str::from_utf8(k).is_ok() {
            let b = V::Bulk(k.to_vec());
            for v in [V::Array(vec![V::Bulk(b"GET".to_vec()), b.clone()]), V::Array(vec![V::Bulk(b"SET".to_vec()), b.clone(), V::Bulk(b"v".to_vec())])] {
                match Command::from_frame(f_of(&v)) {
                    Ok(c) => if c.hash_key() != Some(h) { fail("C12", &format!("the slot of {} is {:?} instead of {}", show(&encoded(&v)), c.hash_key(), h)) },
                    Err(_) => return,
                }
            }
        }
    };
    one(b"");
    for a in 0..=255u8 { one(&[a]); for b in 0..=255u8 { one(&[a, b]) } }
    for n in 0..700usize { one(&vec![b'k'; n]); one(&(0..n).map(|i| (i * 7 % 128) as u8).collect::<Vec<_>>()) }
    for k in ["123456789", "{user1000}.following", "{user1000}.followers", "foo{}{bar}", "foo{{bar}}zap", "foo{bar}{zap}", "{}", "a{b}"] { one(k.as_bytes()) }
    for _ in 0..n { let k = blob(r, 3000); one(&k); let t = text(r); one(&t) }
    for _ in 0..n {
        let v = model::request(r);
        if let Want::Run(c) = settled(&v) {
            now(format!("the request {}", show(&encoded(&v))));
            if let Ok(k) = Command::from_frame(f_of(&v)) {
                if k.hash_key() != slot(&c) { fail("C12", &format!("the slot of {} is {:?} instead of {:?}", show(&encoded(&v)), k.hash_key(), slot(&c))) }
            }
        }
    }
    // the same on every thread
    let ks: Vec<Vec<u8>> = (0..500).map(|_| blob(r, 60)).collect();
    let hs: Vec<u16> = ks.iter().map(|k| crc_hash(k)).collect();
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for (k, h) in ks.iter().zip(&hs) { if crc_hash(k) != *h { fail("C12", &format!("the slot of {} depends on the thread", show(k))) } }); });
    65536 + 2 * n
}
fn main() {
    let (prop, seed, deep) = args();
    let p: &'static str = Box::leak(prop.into_boxed_str());
    setup(p);
    let mut r = Rng::new(seed);
    let n = match p {
        "C05" => c05(&mut r, if deep { 20_000_000 } else { 400_000 }),
        "C12" => c12(&mut r, if deep { 2_000_000 } else { 60_000 }),
        _ => std::process::exit(3),
    };
    println!("SAMPLE {} requests or keys", n);
    println!("DONE {}", n);
}
