//! Requests taken from a connection (C01), in process: every cut of the stream, every size of buffer.
use harness::*;
use roster::application::server::frame::Frame;
use roster::application::server::verif::WriteConnection;
use std::io::Write;
use std::time::Duration;

fn v_of(f: &Frame) -> V {
    match f {
        Frame::Simple(s) => V::Simple(s.as_bytes().to_vec()),
        Frame::Error(s) => V::Error(s.as_bytes().to_vec()),
        Frame::Integer(n) => V::Int(*n),
        Frame::Bulk(b) => V::Bulk(b.to_vec()),
        Frame::Null => V::Null,
        Frame::Array(a) => V::Array(a.iter().map(v_of).collect()),
        Frame::Map(m) => V::Map(m.iter().map(|(k, v)| (v_of(k), v_of(v))).collect()),
    }
}
#[derive(Debug, PartialEq)]
enum End { Clean, Error }

/// The requests of a stream, and how it ends.
fn expected(s: &[u8]) -> Option<(Vec<V>, End)> {
    let mut o = vec![];
    let mut p = 0;
    loop {
        if p == s.len() { return Some((o, End::Clean)) }
        match scan(s, p, 100)? {
            Rd::Inc | Rd::Bad => return Some((o, End::Error)),
            Rd::At(q) => match dec(&s[p..q], 0) {
                Some((v, _)) => { o.push(v); p = q }
                None => return Some((o, End::Error)),
            },
        }
    }
}
fn stream(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![];
    let max = *r.pick(&[8u64, 40, 900, 5000, 20000]);
    for _ in 0..r.below(8) { enc(&value(r, 3, max), &mut s) }
    match r.below(4) {
        0 => { let n = r.below(s.len() as u64 + 1) as usize; s.truncate(n) }
        1 => { if !s.is_empty() { let i = r.below(s.len() as u64) as usize; s[i] = r.next() as u8 } }
        _ => (),
    }
    s
}
fn main() {
    setup("C01");
    let (_, seed, deep) = args();
    let mut rt = monoio::RuntimeBuilder::<monoio::IoUringDriver>::new().enable_timer().build().unwrap();
    let n = rt.block_on(async move {
        let l = monoio::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        let mut r = Rng::new(seed);
        let mut n = 0u64;
        let t = std::time::Instant::now();
        let rounds = if deep { 40_000 } else { 2500 };
        // a short stream cut everywhere
        let mut fixed: Vec<(Vec<u8>, Vec<usize>)> = vec![];
        let mut s = vec![];
        for v in [V::Array(vec![V::Bulk(b"SET".to_vec()), V::Bulk(b"k".to_vec()), V::Bulk(b"a\r\nb".to_vec())]), V::Simple(b"x".to_vec()), V::Null, V::Int(10), V::Map(vec![(V::Int(1), V::Bulk(vec![]))]), V::Array(vec![])] { enc(&v, &mut s) }
        for i in 0..=s.len() { fixed.push((s.clone(), vec![i])); fixed.push((s[..i].to_vec(), vec![])); }
        for i in 0..rounds {
            if t.elapsed() > Duration::from_secs(if deep { 3000 } else { 60 }) { break }
            let (s, mut cuts) = if i < fixed.len() { fixed[i].clone() } else {
                let s = stream(&mut r);
                let k = *r.pick(&[0u64, 0, 1, 2, 5, 30]);
                let c = (0..k).map(|_| r.below(s.len() as u64 + 1) as usize).collect();
                (s, c)
            };
            cuts.push(0);
            cuts.push(s.len());
            cuts.sort();
            let (want, end) = match expected(&s) { Some(x) => x, None => continue };
            now(format!("the stream {} in pieces cut at {:?}", show(&s), cuts));
            let size = *r.pick(&[0usize, 1, 7, 16, 1023, 1024, 4096, 4096, 4096, 65536]);
            let (s2, c2) = (s.clone(), cuts.clone());
            let pause = r.below(3);
            let th = std::thread::spawn(move || {
                let mut c = std::net::TcpStream::connect(addr).unwrap();
                let _ = c.set_nodelay(true);
                for w in c2.windows(2) {
                    if w[0] == w[1] { continue }
                    if c.write_all(&s2[w[0]..w[1]]).is_err() { return }
                    if pause > 0 { std::thread::sleep(Duration::from_micros(300 * pause)) }
                }
                let _ = c.shutdown(std::net::Shutdown::Write);
                // until the other side has read it all
                let _ = std::io::copy(&mut c, &mut std::io::sink());
            });
            let (c, _) = l.accept().await.unwrap();
            let (w, mut rd) = WriteConnection::new(c, size);
            let mut got = vec![];
            let e = loop {
                match monoio::time::timeout(Duration::from_secs(20), rd.read_frame()).await {
                    Err(_) => fail("C01", &format!("no request and no end after 20 s: the stream {} cut at {:?}, buffer of {}; {} of {} requests", show(&s), cuts, size, got.len(), want.len())),
                    Ok(Ok(Some(f))) => got.push(v_of(&f)),
                    Ok(Ok(None)) => break End::Clean,
                    Ok(Err(_)) => break End::Error,
                }
                if got.len() > want.len() { break End::Error }
            };
            drop(w);
            drop(rd);
            let same_ = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| same(a, b));
            if !same_ || e != end {
                fail("C01", &format!("the stream {} cut at {:?} (buffer of {}): requests {:?} then {:?}, instead of {:?} then {:?}", show(&s), cuts, size, got, e, want, end));
            }
            let _ = th;
            n += 1;
        }
        n
    });
    println!("SAMPLE {} streams cut in pieces", n);
    println!("DONE {}", n);
}
