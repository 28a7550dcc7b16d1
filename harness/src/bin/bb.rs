//! The server as its clients see it.
use harness::model::*;
use harness::net::*;
use harness::*;
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Prop = &'static str;
static CASES: AtomicU64 = AtomicU64::new(0);
fn count(n: u64) {
    CASES.fetch_add(n, Ordering::Relaxed);
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
/// Run `f(i)` for `i` in 0..n, `k` at a time.
fn par(k: u64, n: u64, f: impl Fn(u64) + Send + Sync) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..k.min(n) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n { break }
                f(i)
            });
        }
    });
}
/// The same value once it has been through the wire (line breaks of texts).
fn wired(v: V) -> Option<V> {
    dec(&encoded(&v), 0).map(|x| x.0)
}
fn good(r: &mut Rng) -> (V, Cmd) {
    loop {
        if let Some(v) = wired(request(r)) {
            if let Want::Run(c) = settled(&v) { return (v, c) }
        }
    }
}
fn rejected(r: &mut Rng) -> V {
    loop {
        if let Some(v) = wired(request(r)) {
            if settled(&v) == Want::Reject { return v }
        }
    }
}
fn open(a: SocketAddr, p: Prop, w: &mut World) -> (Client, usize) {
    let c = Client::new(a, p);
    let k = Conn {
        addr: c.s.local_addr().map(|x| x.to_string()).unwrap_or_default(),
        laddr: c.s.peer_addr().map(|x| x.to_string()).unwrap_or_default(),
        ..Conn::default()
    };
    w.conns.push(k);
    (c, w.conns.len() - 1)
}
fn expect(p: Prop, w: &mut World, i: usize, c: &Cmd, v: &V, g: Got) {
    match g {
        Got::V(x) => {
            if let Err(e) = w.step(i, c, &x) { bad(p, &format!("the request {}: {}", show(&encoded(v)), e)) }
            // answered: it is established
            w.conns[i].live = !w.conns[i].half;
        }
        Got::End(_) => bad(p, &format!("the connection ended instead of answering {}", show(&encoded(v)))),
    }
}
/// The connection has to end without executing or answering.
fn expect_reject(p: Prop, c: &mut Client, what: &V) {
    match c.next() {
        Got::End(b) if b.is_empty() => (),
        Got::V(V::Error(_)) => (),
        g => bad(p, &format!("the request {} is answered: {:?}", show(&encoded(what)), g)),
    }
}
fn in_pieces(c: &mut Client, r: &mut Rng, b: &[u8], cuts: u64) {
    let mut at: Vec<usize> = (0..cuts).map(|_| r.below(b.len() as u64 + 1) as usize).collect();
    at.push(0);
    at.push(b.len());
    at.sort();
    for w in at.windows(2) {
        if w[0] == w[1] { continue }
        if !c.send(&b[w[0]..w[1]]) { return }
        match r.below(4) { 0 => std::thread::sleep(ms(2)), 1 => std::thread::yield_now(), _ => () }
    }
}

/// Requests one at a time over several connections, each compared with the documentation.
fn session(a: SocketAddr, p: Prop, r: &mut Rng, n: u64, pick: impl Fn(&mut Rng) -> V) {
    let mut w = World::default();
    // keys of this session are its own
    let tag = format!("s{:x}-", r.next());
    let mut cs: Vec<(Client, usize)> = (0..3).map(|_| open(a, p, &mut w)).collect();
    for _ in 0..n {
        let v = pick(r);
        let v = match wired(tagged(v, tag.as_bytes())) { Some(v) => v, None => continue };
        let j = r.below(cs.len() as u64) as usize;
        now(format!("request {}", show(&encoded(&v))));
        match settled(&v) {
            Want::Unsettled => continue,
            Want::Run(c) => {
                let (k, i) = &mut cs[j];
                let i = *i;
                let g = k.call(&v);
                expect(p, &mut w, i, &c, &v, g);
            }
            Want::Reject => {
                let (k, i) = &mut cs[j];
                k.send(&encoded(&v));
                expect_reject(p, k, &v);
                w.conns[*i].live = false;
                cs[j] = open(a, p, &mut w);
            }
        }
        count(1);
    }
}
/// Keys get a prefix of their own.
fn tagged(v: V, t: &[u8]) -> V {
    match v {
        V::Array(mut x) => {
            let is = matches!(x.first(), Some(V::Bulk(b) | V::Simple(b)) if b.eq_ignore_ascii_case(b"get") || b.eq_ignore_ascii_case(b"set"));
            if is {
                if let Some(V::Bulk(k) | V::Simple(k)) = x.get_mut(1) {
                    let mut n = t.to_vec();
                    n.extend(&k[..]);
                    *k = n;
                }
            }
            V::Array(x)
        }
        v => v,
    }
}

// ------------------------------------------------------------------ C01
fn c01(seed: u64, deep: bool) {
    let p = "C01";
    let a = start(None);
    // every way to cut a short stream in two
    let mut s = vec![];
    let key = format!("c01-{}", seed);
    for v in [req(&[b"PING", b"abc"]), req(&[b"SET", key.as_bytes(), b"x\r\ny"]), req(&[b"GET", key.as_bytes()]), req(&[b"PING"])] { s.extend(encoded(&v)) }
    let want = [V::Bulk(b"abc".to_vec()), V::Simple(b"OK".to_vec()), V::Bulk(b"x\r\ny".to_vec()), V::Simple(b"PONG".to_vec())];
    par(8, s.len() as u64 - 1, |i| {
        let i = i as usize + 1;
        let mut c = Client::new(a, p);
        c.send(&s[..i]);
        std::thread::sleep(ms(6));
        c.send(&s[i..]);
        for x in &want {
            now(format!("{} then {}", show(&s[..i]), show(&s[i..])));
            match c.next() {
                Got::V(v) if v == *x => (),
                g => bad(p, &format!("{} then {}: reply {:?} instead of {:?}", show(&s[..i]), show(&s[i..]), g, x)),
            }
        }
        count(1);
    });
    // one byte at a time
    {
        let mut c = Client::new(a, p);
        for b in &s { c.send(&[*b]); std::thread::sleep(ms(1)); }
        for x in &want {
            now("one byte at a time");
            if c.next() != Got::V(x.clone()) { bad(p, "a stream sent one byte at a time is not answered as the same stream sent at once") }
        }
    }
    // sizes around those of buffers, cut at random
    par(8, if deep { 30000 } else { 2500 }, |i| {
        let mut r = Rng::new(seed * 7919 + i);
        let mut w = World::default();
        let (mut c, me) = open(a, p, &mut w);
        let mut s = vec![];
        let mut cmds = vec![];
        for _ in 0..1 + r.below(12) {
            let n = match r.below(7) {
                0 => 1024 - 40 + r.below(80), 1 => 4096 - 60 + r.below(120), 2 => 8192 - 80 + r.below(160), 3 => r.below(20000), 4 => 65536 - 50 + r.below(100), _ => r.below(60),
            } as usize;
            let v = match r.below(3) { 0 => req(&[b"SET", format!("c1-{}-{}-{}", seed, i, r.below(3)).as_bytes(), &vec![b'a' + r.below(26) as u8; n]]), 1 => req(&[b"GET", format!("c1-{}-{}-{}", seed, i, r.below(3)).as_bytes()]), _ => req(&[b"PING", &vec![b'p'; n]]) };
            s.extend(encoded(&v));
            if let Want::Run(c) = want_of(&v) { cmds.push((v, c)) }
        }
        // and at the end nothing, or a request cut short
        let cut = r.below(3) == 0;
        let marker = format!("c1-{}-{}-cut", seed, i);
        let tail = encoded(&req(&[b"SET", marker.as_bytes(), b"never"]));
        let k = 1 + r.below(tail.len() as u64 - 1) as usize;
        if cut { s.extend(&tail[..k]) }
        let fin = cut || r.below(2) == 0;
        let mut wr = Client { s: c.s.try_clone().unwrap(), buf: vec![], prop: p };
        let mut r2 = Rng::new(r.next());
        let s2 = s.clone();
        let t = std::thread::spawn(move || {
            let n = match r2.below(3) { 0 => 0, 1 => 1 + r2.below(4), _ => r2.below(30) };
            in_pieces(&mut wr, &mut r2, &s2, n);
            if fin { wr.half_close() }
        });
        for (v, cmd) in &cmds {
            now(format!("request {} of a stream of {} bytes cut at random", show(&encoded(v)), s.len()));
            let g = c.next();
            expect(p, &mut w, me, cmd, v, g);
            count(1);
        }
        let _ = t.join();
        if fin {
            now("after the end of the stream");
            match c.next() { Got::End(b) if b.is_empty() => (), g => bad(p, &format!("after the end of the stream, the server sent {:?}", g)) }
        }
        if cut {
            let mut o = Client::new(a, p);
            if o.ask(&[b"GET", marker.as_bytes()]) != V::Null { bad(p, &format!("the request {} was executed", show(&tail[..k]))) }
        }
    });
}
fn want_of(v: &V) -> Want { want(v) }

// ------------------------------------------------------------------ C05, C08
fn c05(seed: u64, deep: bool) {
    let a = start(None);
    par(6, if deep { 4000 } else { 300 }, |i| session(a, "C05", &mut Rng::new(seed * 31 + i), 150, request));
}
fn c08(seed: u64, deep: bool) {
    let p = "C08";
    let a = start(None);
    par(6, if deep { 4000 } else { 300 }, |i| session(a, p, &mut Rng::new(seed * 37 + 1000 + i), 120, |r| { if r.below(6) == 0 { request(r) } else { good(r).0 } }));
    // an error leaves the state as it was; ids, however many connections
    let mut r = Rng::new(seed);
    let mut w = World::default();
    let mut many: Vec<(Client, usize)> = (0..300).map(|_| open(a, p, &mut w)).collect();
    for round in 0..3 {
        for (c, i) in many.iter_mut() {
            for args in [vec![&b"CLIENT"[..], b"ID"], vec![b"HELLO"], vec![b"CLIENT", b"INFO"]] {
                let v = req(&args);
                if let Want::Run(cmd) = want(&v) { let g = c.call(&v); expect(p, &mut w, *i, &cmd, &v, g); count(1) }
            }
            if round == 0 {
                let n = format!("n{}", r.below(1000));
                let v = req(&[b"CLIENT", b"SETNAME", n.as_bytes()]);
                if let Want::Run(cmd) = want(&v) { let g = c.call(&v); expect(p, &mut w, *i, &cmd, &v, g); }
            }
        }
        let v = req(&[b"CLIENT", b"LIST"]);
        let (c, i) = &mut many[round * 50];
        let g = c.call(&v);
        expect(p, &mut w, *i, &Cmd::List, &v, g);
    }
    // every length of argument around the sizes of buffers
    let (mut c, i) = open(a, p, &mut w);
    for n in [0usize, 1, 2, 15, 16, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000, 300000, 1 << 20] {
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        for v in [req(&[b"PING", &b]), req(&[b"SET", b"c08", &b]), req(&[b"GET", b"c08"])] {
            if let Want::Run(cmd) = want(&v) { let g = c.call(&v); expect(p, &mut w, i, &cmd, &v, g); count(1) }
        }
    }
}

// ------------------------------------------------------------------ C09
fn c09(seed: u64, deep: bool) {
    let p = "C09";
    let a = start(None);
    par(8, if deep { 15000 } else { 1200 }, |i| {
        let mut r = Rng::new(seed * 101 + i);
        let mut w = World::default();
        let (mut c, me) = open(a, p, &mut w);
        let tag = format!("p{:x}-", r.next());
        let n = match r.below(4) { 0 => 1 + r.below(5), 1 => r.below(60), 2 => r.below(300), _ => r.below(1200) };
        let mut s = vec![];
        let mut cmds = vec![];
        for _ in 0..n {
            let (v, _) = good(&mut r);
            let v = match wired(tagged(v, tag.as_bytes())) { Some(v) => v, None => continue };
            let cmd = match settled(&v) { Want::Run(c) => c, _ => continue };
            s.extend(encoded(&v));
            cmds.push((v, cmd));
        }
        // one in three ends with a request that is rejected, and others after it
        let rej = r.below(3) == 0;
        let marker = format!("{}after", tag);
        let mut what = V::Null;
        if rej {
            what = rejected(&mut r);
            s.extend(encoded(&what));
            for _ in 0..r.below(4) { s.extend(encoded(&req(&[b"SET", marker.as_bytes(), b"executed"]))) }
        }
        let fin = !rej && r.below(3) == 0;
        // its own end may be known before its last replies are sent
        w.conns[me].half = fin;
        let mut wr = Client { s: c.s.try_clone().unwrap(), buf: vec![], prop: p };
        let mut r2 = Rng::new(r.next());
        let t = std::thread::spawn(move || {
            let n = match r2.below(3) { 0 => 0, _ => r2.below(6) };
            in_pieces(&mut wr, &mut r2, &s, n);
            if fin { wr.half_close() }
        });
        if r.below(3) == 0 { std::thread::sleep(ms(r.below(20))) }
        for (k, (v, cmd)) in cmds.iter().enumerate() {
            now(format!("request {} of {} pipelined", k, cmds.len()));
            match c.next() {
                Got::End(_) if rej => break, // a reset may discard what was not read yet
                g => expect(p, &mut w, me, cmd, v, g),
            }
            count(1);
        }
        if rej {
            now(format!("after the rejected request {}", show(&encoded(&what))));
            match c.next() {
                Got::End(_) => (),
                Got::V(V::Error(_)) => match c.next() { Got::End(_) => (), g => bad(p, &format!("a request after the rejected {} is answered: {:?}", show(&encoded(&what)), g)) },
                g => bad(p, &format!("a request after the rejected {} is answered: {:?}", show(&encoded(&what)), g)),
            }
            let mut o = Client::new(a, p);
            if o.ask(&[b"GET", marker.as_bytes()]) != V::Null { bad(p, &format!("a request after the rejected {} was executed", show(&encoded(&what)))) }
        } else if fin {
            match c.next() { Got::End(b) if b.is_empty() => (), g => bad(p, &format!("more replies than requests: {:?}", g)) }
        }
        let _ = t.join();
    });
    // a client that sends everything before it reads anything
    par(4, if deep { 40 } else { 4 }, |i| {
        let mut r = Rng::new(seed * 17 + i);
        let mut c = Client::new(a, p);
        let mut wr = Client { s: c.s.try_clone().unwrap(), buf: vec![], prop: p };
        let n = 6000 + r.below(4000);
        let big = i % 2 == 0;
        let k = format!("c09-big-{}", i);
        let t = std::thread::spawn(move || {
            let mut s = vec![];
            s.extend(encoded(&req(&[b"SET", k.as_bytes(), &vec![b'v'; 2000]])));
            for j in 0..n {
                s.extend(encoded(&req(&[b"PING", j.to_string().as_bytes()])));
                if big { s.extend(encoded(&req(&[b"GET", k.as_bytes()]))) }
            }
            wr.send(&s);
        });
        std::thread::sleep(ms(700));
        now("the first of a flood of requests");
        if c.next() != Got::V(V::Simple(b"OK".to_vec())) { bad(p, "the first of a flood of requests is not answered OK") }
        for j in 0..n {
            now(format!("request {} of a flood of {}", j, n));
            let g = c.next();
            if g != Got::V(V::Bulk(j.to_string().into_bytes())) { bad(p, &format!("request {} of a flood of {} is answered {:?}", j, n, g)) }
            if big && c.next() != Got::V(V::Bulk(vec![b'v'; 2000])) { bad(p, &format!("GET {} of a flood is not answered with the value", j)) }
        }
        count(n);
        let _ = t.join();
    });
}

// ------------------------------------------------------------------ C06
/// Values written and read concurrently: no read may return a value that was overwritten
/// before the read started, or that nobody wrote.
fn c06(seed: u64, deep: bool) {
    let p = "C06";
    let a = start(None);
    let t0 = Instant::now();
    #[derive(Clone)]
    struct Op { from: Duration, to: Duration, val: Option<u64> }
    for round in 0..(if deep { 300 } else { 12 }) {
        let keys: Vec<String> = (0..3).map(|k| format!("c06-{}-{}-{}", seed, round, k)).collect();
        let next = AtomicU64::new(1);
        let sets: Vec<Mutex<Vec<Op>>> = (0..3).map(|_| Mutex::new(vec![])).collect();
        let gets: Vec<Mutex<Vec<Op>>> = (0..3).map(|_| Mutex::new(vec![])).collect();
        par(8, 8, |i| {
            let mut r = Rng::new(seed * 1009 + round * 8 + i);
            let mut c = Client::new(a, p);
            for _ in 0..500 {
                let k = r.below(3) as usize;
                if r.below(2) == 0 {
                    let v = next.fetch_add(1, Ordering::Relaxed);
                    let val = format!("{}:{}", v, "z".repeat((v % 97) as usize));
                    let from = t0.elapsed();
                    let ok = c.ask(&[b"SET", keys[k].as_bytes(), val.as_bytes()]);
                    if ok != V::Simple(b"OK".to_vec()) { bad(p, &format!("SET is answered {:?}", ok)) }
                    sets[k].lock().unwrap().push(Op { from, to: t0.elapsed(), val: Some(v) });
                } else {
                    let from = t0.elapsed();
                    let g = c.ask(&[b"GET", keys[k].as_bytes()]);
                    let to = t0.elapsed();
                    let val = match &g {
                        V::Null => None,
                        V::Bulk(b) => {
                            let s = String::from_utf8_lossy(b).to_string();
                            let n: u64 = s.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            if s != format!("{}:{}", n, "z".repeat((n % 97) as usize)) { bad(p, &format!("GET returns {}, which nobody wrote", show(b))) }
                            Some(n)
                        }
                        g => bad(p, &format!("GET is answered {:?}", g)),
                    };
                    gets[k].lock().unwrap().push(Op { from, to, val });
                }
                count(1);
            }
        });
        for k in 0..3 {
            let s = sets[k].lock().unwrap().clone();
            for g in gets[k].lock().unwrap().iter() {
                // the last write known to be over before the read began
                let over = s.iter().filter(|x| x.to < g.from).map(|x| x.from).max();
                match g.val {
                    None => if over.is_some() { bad(p, &format!("GET of {} returned nil although a SET was acknowledged before it", keys[k])) },
                    Some(v) => match s.iter().find(|x| x.val == Some(v)) {
                        None => bad(p, &format!("GET of {} returned {}, which was written to no such key", keys[k], v)),
                        Some(w) => {
                            if w.from > g.to { bad(p, &format!("GET of {} returned {} before it was written", keys[k], v)) }
                            if let Some(f) = over { if w.to < f { bad(p, &format!("GET of {} returned {}, which had been overwritten", keys[k], v)) } }
                        }
                    },
                }
            }
        }
    }
    // a SET concurrent with the expiration of the same key is not lost
    let n = if deep { 20000 } else { 500 };
    par(4, 4, |i| {
        let mut c = Client::new(a, p);
        let mut rs: Vec<Client> = (0..2).map(|_| Client::new(a, p)).collect();
        for j in 0..n {
            let k = format!("c06x-{}-{}", i, j % 3);
            c.ask(&[b"SET", k.as_bytes(), b"old", b"PX", b"1"]);
            std::thread::sleep(ms(9));
            // all at once: two GETs that find it expired, and a SET
            let g = encoded(&req(&[b"GET", k.as_bytes()]));
            let s = encoded(&req(&[b"SET", k.as_bytes(), b"new"]));
            rs[0].send(&g);
            if j % 2 == 0 { rs[1].send(&g); }
            c.send(&s);
            if j % 2 == 1 { rs[1].send(&g); }
            let ok = c.next();
            if ok != Got::V(V::Simple(b"OK".to_vec())) { bad(p, &format!("SET is answered {:?}", ok)) }
            for x in rs.iter_mut() {
                match x.next() { Got::V(V::Null) => (), Got::V(V::Bulk(b)) if b == b"new" => (), g => bad(p, &format!("GET of an expired key returns {:?}", g)) }
            }
            let g = c.ask(&[b"GET", k.as_bytes()]);
            if g != V::Bulk(b"new".to_vec()) { bad(p, &format!("a SET acknowledged while the key expired is lost: GET returns {:?}", g)) }
            count(1);
        }
    });
    // keys are their bytes: no two of them are confused
    let mut r = Rng::new(seed);
    let mut ks: Vec<Vec<u8>> = vec![b"".to_vec(), b" ".to_vec(), b"a".to_vec(), b"A".to_vec(), b"a ".to_vec(), b"a\0".to_vec(), b"\0".to_vec(), b"{a}b".to_vec(), b"{a}c".to_vec(), b"a\r\n".to_vec(), b"1".to_vec(), b"01".to_vec(), "\u{e9}".as_bytes().to_vec(), "e\u{301}".as_bytes().to_vec()];
    for n in [15, 16, 17, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1024, 5000] { ks.push(vec![b'q'; n]); let mut x = vec![b'q'; n]; x[n - 1] = b'r'; ks.push(x); }
    for i in 0..(if deep { 5000 } else { 500 }) { ks.push(format!("key:{}", i).into_bytes()) }
    let mut cs: Vec<Client> = (0..6).map(|_| Client::new(a, p)).collect();
    for (i, k) in ks.iter().enumerate() { cs[i % 6].ask(&[b"SET", k, &[b"v-", &k[..], b"-v"].concat()]); }
    for _ in 0..2 {
        for k in ks.iter() {
            let g = cs[r.below(6) as usize].ask(&[b"GET", k]);
            if g != V::Bulk([b"v-", &k[..], b"-v"].concat()) { bad(p, &format!("GET of {} returns {:?}", show(k), g)) }
            count(1);
        }
    }
}

// ------------------------------------------------------------------ C07
fn c07(seed: u64, deep: bool) {
    let p = "C07";
    let a = start(None);
    let slack = ms(40);
    #[derive(Clone)]
    enum Ttl { None, Ex(u64), Px(u64) }
    let life = |t: &Ttl| match t { Ttl::None => None, Ttl::Ex(n) => Some(Duration::from_secs(*n)), Ttl::Px(n) => Some(ms(*n)) };
    // histories of SETs with various lives, GETs all along, in many keys at once
    par(24, if deep { 600 } else { 72 }, |i| {
        let mut r = Rng::new(seed * 53 + i);
        let mut c = Client::new(a, p);
        let k = format!("c07-{}-{}", seed, i);
        let mut hist = String::new();
        for _ in 0..1 + r.below(3) {
            let t = match r.below(7) {
                0 => Ttl::None, 1 => Ttl::Ex(1), 2 => Ttl::Ex(2), 3 => Ttl::Px(u64::MAX - r.below(1000)), 4 => Ttl::Ex(1 << (20 + r.below(44))), _ => Ttl::Px(60 + r.below(900)),
            };
            let (o, n) = match &t { Ttl::None => ("", 0), Ttl::Ex(n) => ("EX", *n), Ttl::Px(n) => ("PX", *n) };
            let v = format!("v{}", r.next());
            let ns = n.to_string();
            let sent = Instant::now();
            let ok = if o.is_empty() { c.ask(&[b"SET", k.as_bytes(), v.as_bytes()]) } else { c.ask(&[b"SET", k.as_bytes(), v.as_bytes(), o.as_bytes(), ns.as_bytes()]) };
            let acked = Instant::now();
            hist.push_str(&format!("SET {} {} ; ", o, ns));
            if ok != V::Simple(b"OK".to_vec()) { bad(p, &format!("{}: answered {:?}", hist, ok)) }
            let life = life(&t).unwrap_or(Duration::from_secs(1 << 40)).min(Duration::from_secs(1 << 30));
            // stay until it is over, or leave early
            let stop = if r.below(3) > 0 { life.min(ms(2300)) + ms(150) } else { ms(r.below(400)) };
            while sent.elapsed() < stop {
                let from = Instant::now();
                let g = c.ask(&[b"GET", k.as_bytes()]);
                let to = Instant::now();
                count(1);
                let present = match g { V::Null => false, V::Bulk(b) if b == v.as_bytes() => true, g => bad(p, &format!("{}: GET returns {:?}", hist, g)) };
                if !present && to.duration_since(sent) + slack < life { bad(p, &format!("{} GET returns nil after {:?}", hist, to.duration_since(sent))) }
                if present && from.duration_since(acked) > life + slack { bad(p, &format!("{} GET returns the value after {:?}", hist, from.duration_since(acked))) }
                let rest = life.saturating_sub(sent.elapsed());
                let z = if rest > ms(70) && rest < ms(400) { rest - ms(65) } else { ms(20 + r.below(120)) };
                std::thread::sleep(z);
            }
        }
    });
    // lives of all sizes
    let mut c = Client::new(a, p);
    let mut ns: Vec<u64> = vec![];
    for b in 4..64 { ns.extend([1u64 << b, (1 << b) - 1, (1 << b) + 1]) }
    for d in 2..20 { ns.extend([10u64.pow(d), 10u64.pow(d).saturating_mul(1000)]) }
    ns.extend([u64::MAX, u64::MAX - 1, u64::MAX / 1000, u64::MAX / 1000 + 1, u64::MAX / 1_000_000, u64::MAX / 1_000_000_000, u32::MAX as u64 / 2, 1 << 63]);
    for (j, n) in ns.iter().enumerate() {
        for o in ["EX", "PX"] {
            let k = format!("c07-size-{}-{}", o, j);
            if o == "PX" && *n < 60_000 || *n < 60 { continue }
            let ok = c.ask(&[b"SET", k.as_bytes(), b"v", o.as_bytes(), n.to_string().as_bytes()]);
            if ok != V::Simple(b"OK".to_vec()) { bad(p, &format!("SET {} {} is answered {:?}", o, n, ok)) }
            let g = c.ask(&[b"GET", k.as_bytes()]);
            if g != V::Bulk(b"v".to_vec()) { bad(p, &format!("SET {} {}, GET at once returns {:?}", o, n, g)) }
            count(1);
        }
    }
    for (j, n) in ns.iter().enumerate() {
        for o in ["EX", "PX"] {
            let k = format!("c07-size-{}-{}", o, j);
            if o == "PX" && *n < 60_000 || *n < 60 { continue }
            let g = c.ask(&[b"GET", k.as_bytes()]);
            if g != V::Bulk(b"v".to_vec()) { bad(p, &format!("SET {} {}, GET soon after returns {:?}", o, n, g)) }
        }
    }
}

// ------------------------------------------------------------------ C10
fn id_of(p: Prop, c: &mut Client) -> u64 {
    match c.ask(&[b"CLIENT", b"ID"]) { V::Int(n) => n, g => bad(p, &format!("CLIENT ID is answered {:?}", g)) }
}
/// The ids and the addresses of CLIENT LIST.
fn listed(p: Prop, c: &mut Client) -> Vec<(u64, String)> {
    match c.ask(&[b"CLIENT", b"LIST"]) {
        V::Array(a) => a.iter().map(|x| match x {
            V::Simple(s) => {
                let f = fields(s).unwrap_or_else(|| bad(p, &format!("not a description: {}", show(s))));
                match (field(&f, "id").and_then(|x| x.parse().ok()), field(&f, "addr")) { (Some(i), Some(a)) => (i, a.to_string()), _ => bad(p, &format!("no id or addr in {}", show(s))) }
            }
            x => bad(p, &format!("a description is {:?}", x)),
        }).collect(),
        g => bad(p, &format!("CLIENT LIST is answered {:?}", g)),
    }
}
fn gone(p: Prop, w: &mut Client, id: u64, how: &str) {
    let t = Instant::now();
    loop {
        if !listed(p, w).iter().any(|x| x.0 == id) { return }
        if t.elapsed() > Duration::from_secs(15) { bad(p, &format!("a connection that ended ({}) is still listed after {:?}", how, t.elapsed())) }
        std::thread::sleep(ms(5));
    }
}
/// Ways for a connection to end.
fn end(p: Prop, r: &mut Rng, mut c: Client) -> (&'static str, Option<Client>) {
    // what it did before
    for _ in 0..r.below(3) {
        let v = match r.below(6) {
            0 | 1 => req(&[b"CLIENT", b"SETNAME", format!("n{}", r.below(100)).as_bytes()]),
            2 => req(&[b"CLIENT", b"SETINFO", b"LIB-NAME", b"lib"]),
            3 => req(&[b"SET", &key(r), b"v"]),
            _ => good(r).0,
        };
        c.call(&v);
    }
    match r.below(9) {
        0 => ("closed", None),
        1 => { c.reset(); ("reset", None) }
        2 => { c.send(b"*2\r\n$3\r\nGET\r\n$5\r\nab"); ("closed inside a request", None) }
        3 => { c.send(b"!!!\r\n"); ("malformed bytes", Some(c)) }
        4 => { c.send(&encoded(&req(&[b"GET"]))); ("rejected request", Some(c)) }
        5 => { c.half_close(); let _ = p; ("half closed", Some(c)) }
        6 => { let b = encoded(&req(&[b"CLIENT", b"LIST"])); for _ in 0..200 { c.send(&b); } c.reset(); ("reset with replies to come", None) }
        7 => { let b = encoded(&req(&[b"PING", &[b'x'; 5000]])); for _ in 0..50 { c.send(&b); } ("closed with replies to come", None) }
        _ => { c.send(b"*1\r\n$18446744073709551615\r\n"); ("impossible length", Some(c)) }
    }
}
fn c10(seed: u64, deep: bool) {
    let p = "C10";
    let a = start(None);
    let all: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let last = Mutex::new(0u64); // greatest id of a connection known to be established
    let n = if deep { 60000 } else { 8000 };
    let mut r = Rng::new(seed);
    let mut keep: Vec<Client> = (0..10).map(|_| Client::new(a, p)).collect();
    let kept: Vec<u64> = keep.iter_mut().map(|c| id_of(p, c)).collect();
    for k in &kept { all.lock().unwrap().insert(*k); }
    // many connections opened and ended by several threads, those kept listed exactly once all along
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    std::thread::scope(|s| {
        let w = {
            let stop = stop.clone();
            let kept = kept.clone();
            s.spawn(move || {
                let mut w = Client::new(a, p);
                while !stop.load(Ordering::Relaxed) {
                    let l = listed(p, &mut w);
                    let mut seen: HashMap<u64, u32> = HashMap::new();
                    for x in &l { *seen.entry(x.0).or_default() += 1 }
                    if let Some((i, k)) = seen.iter().find(|x| *x.1 != 1) { bad(p, &format!("connection {} is listed {} times", i, k)) }
                    for k in &kept { if !seen.contains_key(k) { bad(p, &format!("the live connection {} is not listed", k)) } }
                    count(1);
                }
            })
        };
        par(12, n, |i| {
            let mut r = Rng::new(seed * 71 + i);
            let before = *last.lock().unwrap();
            let mut c = Client::new(a, p);
            let id = id_of(p, &mut c);
            if !all.lock().unwrap().insert(id) { bad(p, &format!("the id {} was given twice", id)) }
            if i > 0 && before > 0 && id <= before { bad(p, &format!("a connection established after {} has the id {}", before, id)) }
            { let mut l = last.lock().unwrap(); *l = (*l).max(id); }
            if r.below(3) == 0 {
                match c.ask(&[b"CLIENT", b"INFO"]) {
                    V::Simple(s) => { let f = fields(&s).unwrap_or_default(); if field(&f, "id") != Some(&id.to_string()[..]) { bad(p, &format!("CLIENT INFO of {} is {}", id, show(&s))) } }
                    g => bad(p, &format!("CLIENT INFO is answered {:?}", g)),
                }
                if id_of(p, &mut c) != id { bad(p, "the id of a connection changes") }
            }
            end(p, &mut r, c);
            count(1);
        });
        stop.store(true, Ordering::Relaxed);
        let _ = w.join();
    });
    // those that ended are gone, those that live are there
    let mut w = Client::new(a, p);
    let me = id_of(p, &mut w);
    for j in 0..(if deep { 900 } else { 120 }) {
        let mut c = Client::new(a, p);
        let id = id_of(p, &mut c);
        let addr = c.s.local_addr().unwrap().to_string();
        let l = listed(p, &mut w);
        if l.iter().filter(|x| x.0 == id && x.1 == addr).count() != 1 { bad(p, &format!("the live connection {} from {} is not listed once", id, addr)) }
        if l.iter().filter(|x| x.0 == me).count() != 1 { bad(p, "the connection asking is not listed once") }
        let (how, _c) = end(p, &mut Rng::new(seed * 9 + j), c);
        gone(p, &mut w, id, how);
        count(1);
    }
    for (c, k) in keep.iter_mut().zip(&kept) { if id_of(p, c) != *k { bad(p, &format!("the id {} of a connection changed", k)) } }
    // from one port of several addresses
    for j in 0..(if deep { 60 } else { 8 }) {
        let port = match std::net::TcpListener::bind("127.0.0.250:0").and_then(|l| l.local_addr()) { Ok(x) => x.port(), Err(_) => continue };
        let mut cs: Vec<(Client, u64)> = vec![];
        for h in 2..7 {
            if let Some(mut c) = Client::bound(a, h, port, p) { let id = id_of(p, &mut c); cs.push((c, id)) }
        }
        let l = listed(p, &mut w);
        for (c, id) in &cs {
            let addr = c.s.local_addr().unwrap().to_string();
            if l.iter().filter(|x| x.0 == *id && x.1 == addr).count() != 1 { bad(p, &format!("the live connection {} from {} is not listed once, with others from the port {} of other addresses", id, addr, port)) }
        }
        let mut r = Rng::new(seed * 13 + j);
        for (c, id) in cs {
            let (how, _c) = end(p, &mut r, c);
            gone(p, &mut w, id, how);
            count(1);
        }
    }
    // and nothing else is left
    let t = Instant::now();
    loop {
        let l = listed(p, &mut w);
        if l.len() == kept.len() + 1 { break }
        if t.elapsed() > Duration::from_secs(15) { bad(p, &format!("{} connections are listed, {} live", l.len(), kept.len() + 1)) }
        std::thread::sleep(ms(20));
    }
    let _ = r.next();
}

// ------------------------------------------------------------------ C11
fn c11(seed: u64, deep: bool) {
    let p = "C11";
    let a = start(None);
    par(6, if deep { 4000 } else { 400 }, |i| session(a, p, &mut Rng::new(seed * 41 + i), 120, |r| match r.below(10) {
        0..=3 => req(&[b"CLIENT", b"SETNAME", &name(r)]),
        4 | 5 => req(&[b"CLIENT", b"GETNAME"]),
        6 => req(&[b"CLIENT", b"INFO"]),
        7 => req(&[b"CLIENT", b"LIST"]),
        8 => req(&[b"CLIENT", b"SETINFO", b"LIB-NAME", b"other name=x"]),
        _ => good(r).0,
    }));
    // every character
    let mut w = World::default();
    let (mut c, i) = open(a, p, &mut w);
    for ch in (0u32..0x180).chain([0x2028, 0x3000, 0x1F600, 0xFEFF, 0xFFFD]) {
        let Some(ch) = char::from_u32(ch) else { continue };
        for n in [format!("{}", ch), format!("ab{}", ch), format!("{}ab", ch), format!("a{}b", ch)] {
            for v in [req(&[b"CLIENT", b"SETNAME", n.as_bytes()]), req(&[b"CLIENT", b"GETNAME"]), req(&[b"CLIENT", b"INFO"])] {
                if let Want::Run(cmd) = want(&v) { let g = c.call(&v); expect(p, &mut w, i, &cmd, &v, g); count(1) }
            }
        }
    }
    // several connections renaming themselves at once, from all the threads of the server
    par(12, if deep { 120 } else { 24 }, |i| {
        let mut r = Rng::new(seed * 43 + i);
        let mut w = World::default();
        let (mut c, me) = open(a, p, &mut w);
        for j in 0..120u64 {
            let n = match r.below(5) { 0 => vec![], _ => format!("c{}-{}", i, j).into_bytes() };
            for v in [req(&[b"CLIENT", b"SETNAME", &n]), req(&[b"CLIENT", b"GETNAME"]), req(&[b"CLIENT", b"INFO"]), req(&[b"CLIENT", b"LIST"])] {
                if let Want::Run(cmd) = want(&v) { let g = c.call(&v); expect(p, &mut w, me, &cmd, &v, g); count(1) }
            }
        }
    });
}

// ------------------------------------------------------------------ C04
fn alive(p: Prop, w: &mut Client, what: &str) {
    if dead() { bad(p, &format!("the server stopped after {}", what)) }
    now(format!("after {}", what));
    if w.ask(&[b"PING", b"alive"]) != V::Bulk(b"alive".to_vec()) { bad(p, &format!("another connection is not served after {}", what)) }
}
fn garbage(r: &mut Rng) -> Vec<u8> {
    let lens: &[&str] = &["0", "1", "2", "-1", "-2", "", "00", "007", "+1", "1e9", "4294967295", "4294967296", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", " 1", "1 ", "1\n", "x"];
    let mut s = vec![];
    match r.below(10) {
        0 => for _ in 0..r.below(40) { s.push(r.next() as u8) },
        1 => { s.push(*r.pick(b"+-:$*%_#,(!=~>|")); s.extend(r.pick(lens).as_bytes()); s.extend(b"\r\n"); for _ in 0..r.below(30) { s.push(r.next() as u8) } }
        2 => {
            let d = *r.pick(&[3usize, 100, 127, 128, 129, 1000, 20000, 200000]);
            let k = *r.pick(&["*1\r\n", "%1\r\n", "%1\r\n+k\r\n", "*2\r\n:1\r\n", "*1\r\n*1\r\n"]);
            for _ in 0..d { s.extend(k.as_bytes()) }
            if r.below(2) == 0 { s.extend(b":1\r\n") }
        }
        3 | 4 => {
            // a request with random damage
            s = encoded(&request(r));
            for _ in 0..1 + r.below(3) {
                if s.is_empty() { break }
                let i = r.below(s.len() as u64) as usize;
                match r.below(4) { 0 => s[i] = r.next() as u8, 1 => { s.remove(i); } 2 => s.insert(i, *r.pick(b"\r\n$*%:+-019\xff")), _ => s.truncate(i) }
            }
        }
        5 => {
            // a length that is not the right one
            let l = *r.pick(lens);
            s.extend(format!("*3\r\n$3\r\nSET\r\n${}\r\nkey\r\n$1\r\nv\r\n", l).as_bytes());
        }
        6 => { let l = *r.pick(lens); s.extend(format!("*{}\r\n$4\r\nPING\r\n", l).as_bytes()) }
        7 => s.extend(encoded(&value(r, 3, 200))),
        8 => {
            let w = *r.pick(&["SET", "GET", "PING", "HELLO", "ACL", "CLIENT"]);
            let mut a = vec![V::Bulk(w.as_bytes().to_vec())];
            if r.below(2) == 0 { let s = *r.pick(&["CAT", "SETNAME", "SETINFO", "LIST", "ID", "INFO", "HELP", "GETNAME", "EX"]); a.push(V::Bulk(s.as_bytes().to_vec())) }
            for _ in 0..r.below(5) { a.push(value(r, 1, 30)) }
            s.extend(encoded(&V::Array(a)))
        }
        _ => for _ in 0..1 + r.below(3) { if let Some(v) = wired(request(r)) { s.extend(encoded(&v)) } }
    }
    s
}
fn c04(seed: u64, deep: bool) {
    let p = "C04";
    let a = start(None);
    let n = if deep { 300000 } else { 12000 };
    let marker = format!("c04-{}", seed);
    Client::new(a, p).ask(&[b"SET", marker.as_bytes(), b"kept"]);
    par(8, n, |i| {
        let mut r = Rng::new(seed * 61 + i);
        let mut c = Client::new(a, p);
        let s: Vec<u8> = (0..1 + r.below(3)).flat_map(|_| garbage(&mut r)).collect();
        let txt = show(&s);
        let k = r.below(4);
        in_pieces(&mut c, &mut r, &s, k);
        match r.below(4) {
            0 => c.reset(),
            1 => drop(c),
            2 => { c.half_close(); let _ = c.s.set_read_timeout(Some(ms(5))); let mut b = [0u8; 4096]; let _ = std::io::Read::read(&mut c.s, &mut b); }
            _ => { let _ = c.s.set_read_timeout(Some(ms(2))); let mut b = [0u8; 4096]; let _ = std::io::Read::read(&mut c.s, &mut b); }
        }
        if i % 8 == 0 {
            let mut w = Client::new(a, p);
            alive(p, &mut w, &format!("a client sent {}", txt));
            w.reset();
        }
        if dead() { bad(p, &format!("the server stopped while clients sent bytes such as {}", txt)) }
        count(1);
    });
    let mut w = Client::new(a, p);
    alive(p, &mut w, "clients sent malformed bytes");
    // each of these alone
    for s in [
        &b"$18446744073709551615\r\n"[..], b"%9223372036854775808\r\n", b"%18446744073709551615\r\n", b"*18446744073709551615\r\n", b"*9223372036854775807\r\n*1\r\n", b"$9223372036854775807\r\nabc",
        b"+\xff\xfe\r\n", b"-\xc3\x28\r\n", b"%1\r\n%0\r\n+a\r\n", b"%1\r\n*1\r\n$-1\r\n:1\r\n", b"*0\r\n", b"*1\r\n*0\r\n", b"*1\r\n$-1\r\n", b"*-1\r\n", b"$-2\r\n", b"$-1xx", b":\r\n", b"*1\r\n:5\r\n", b"\r\n\r\n", b"*3\r\n$3\r\nSET\r\n$-1\r\n$1\r\nv\r\n",
        b"*4\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n", b"*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n:18446744073709551615\r\n", b"*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nPX\r\n:18446744073709551615\r\n", b"*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n:4294967296\r\n",
        b"*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n:0\r\n", b"*3\r\n$3\r\nACL\r\n$3\r\nCAT\r\n$1\r\nx\r\n", b"*2\r\n$3\r\nACL\r\n$3\r\nCAT\r\n", b"*1\r\n$3\r\nACL\r\n",
        b"*2\r\n$6\r\nCLIENT\r\n$4\r\nHELP\r\n", b"*3\r\n$6\r\nCLIENT\r\n$7\r\nSETINFO\r\n:1\r\n", b"*4\r\n$6\r\nCLIENT\r\n$7\r\nSETINFO\r\n:1\r\n*0\r\n", b"*4\r\n$6\r\nCLIENT\r\n$4\r\nLIST\r\n$4\r\nTYPE\r\n:1\r\n", b"*2\r\n$4\r\nPING\r\n$0\r\n\r\n",
    ] {
        let mut c = Client::new(a, p);
        c.send(s);
        let _ = c.s.set_read_timeout(Some(ms(20)));
        let mut b = [0u8; 4096];
        let _ = std::io::Read::read(&mut c.s, &mut b);
        alive(p, &mut w, &format!("a client sent {}", show(s)));
        drop(c);
        alive(p, &mut w, &format!("a client sent {} and left", show(s)));
        count(1);
    }
    // texts of every length, of characters of every length, wherever a request has one
    let ns: Vec<usize> = (0..300usize).chain([511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 65536]).collect();
    par(8, ns.len() as u64 * 5, |i| {
        let n = ns[i as usize / 5];
        let ch = ["\u{1F600}", "\u{20ac}", "\u{e9}", "x", "\0"][i as usize % 5];
        let mut t = "y".repeat(n % ch.len());
        while t.len() + ch.len() <= n { t.push_str(ch) }
        let t = t.as_bytes();
        let mut c = Client::new(a, p);
        for v in [req(&[t]), req(&[b"PING", t]), req(&[b"SET", t, t]), req(&[b"GET", t]), req(&[b"CLIENT", b"SETINFO", b"LIB-NAME", t]), req(&[b"ACL", b"CAT", t]), req(&[b"CLIENT", b"SETNAME", t]), req(&[b"CLIENT", t]), req(&[b"ACL", t]), V::Array(vec![V::Simple(t.to_vec())])] {
            if matches!(c.call(&v), Got::End(_)) { c = Client::new(a, p); }
        }
        count(1);
        if dead() { bad(p, &format!("the server stopped after requests with a text of {} bytes, such as {}", t.len(), show(&t[..t.len().min(12)]))) }
    });
    alive(p, &mut w, "requests with texts of many lengths");
    // deep values, whole and unfinished
    for d in [2usize, 10, 100, 127, 128, 129, 130, 200, 1000, 10000, 100000, 400000] {
        for k in ["*1\r\n", "%1\r\n", "%1\r\n+k\r\n", "*3\r\n+a\r\n:1\r\n"] {
            let mut c = Client::new(a, p);
            let mut s = k.repeat(d).into_bytes();
            s.extend(b":1\r\n");
            c.send(&s);
            let _ = c.s.set_read_timeout(Some(ms(30)));
            let mut b = [0u8; 4096];
            let _ = std::io::Read::read(&mut c.s, &mut b);
            alive(p, &mut w, &format!("a client sent {} values inside one another ({})", d, show(k.as_bytes())));
            count(1);
        }
    }
    // clients that leave with replies to come
    for j in 0..(if deep { 400 } else { 60 }) {
        let mut r = Rng::new(seed * 3 + j);
        let mut c = Client::new(a, p);
        let s: Vec<u8> = (0..400).flat_map(|_| encoded(&req(&[b"PING", &[b'x'; 3000]]))).collect();
        let mut o = Client { s: c.s.try_clone().unwrap(), buf: vec![], prop: p };
        let t = std::thread::spawn(move || { let _ = o.s.set_write_timeout(Some(ms(100))); let _ = o.send(&s); });
        std::thread::sleep(ms(r.below(12)));
        match r.below(3) { 0 => c.reset(), 1 => { let _ = c.s.shutdown(std::net::Shutdown::Both); } _ => { c.half_close(); drop(c) } }
        let _ = t.join();
        alive(p, &mut w, "a client left with replies to come");
        count(1);
    }
    if w.ask(&[b"GET", marker.as_bytes()]) != V::Bulk(b"kept".to_vec()) { bad(p, "a key set by another connection is lost") }
    // every one of them is marked as ended
    let t = Instant::now();
    loop {
        let l = listed(p, &mut w);
        if l.len() == 1 { break }
        if t.elapsed() > Duration::from_secs(15) { bad(p, &format!("{} connections that ended are still listed", l.len() - 1)) }
        std::thread::sleep(ms(20));
    }
    // more connections than descriptors: those that come after are accepted
    let b = start(Some(140));
    for _ in 0..(if deep { 10 } else { 3 }) {
        let mut cs = vec![];
        for _ in 0..260 {
            if let Ok(s) = std::net::TcpStream::connect_timeout(&b, ms(300)) { cs.push(s) } else { break }
        }
        std::thread::sleep(ms(60));
        if dead() { bad(p, &format!("the server stopped when {} clients connected and it ran out of descriptors", cs.len())) }
        drop(cs);
        std::thread::sleep(ms(250));
        for _ in 0..40 {
            let mut c = Client::new(b, p);
            alive(p, &mut c, "the server ran out of descriptors, and connections ended");
        }
        count(1);
    }
}

fn main() {
    let (prop, seed, deep) = args();
    let p: Prop = Box::leak(prop.clone().into_boxed_str());
    setup(p);
    let f: fn(u64, bool) = match p {
        "C01" => c01, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11,
        _ => give_up("no such property"),
    };
    f(seed, deep);
    if dead() { bad(p, "the server stopped") }
    println!("SAMPLE {} cases of {} over the network", CASES.load(Ordering::Relaxed), p);
    done(CASES.load(Ordering::Relaxed))
}
