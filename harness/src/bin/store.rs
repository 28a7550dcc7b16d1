//! The storage, in process: values (C06), deadlines (C07), parts (C13).
use bytes::Bytes;
use coarsetime::{Duration as CDur, Instant};
use harness::*;
use roster::domain::dialer::{RootDialer, Slot};
use roster::domain::storage::{SetOptions, Storage, StorageSegment};
use std::collections::HashMap;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Wake, Waker};

struct W(std::thread::Thread);
impl Wake for W {
    fn wake(self: Arc<Self>) { self.0.unpark() }
}
fn run<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(W(std::thread::current())));
    let mut f = pin!(f);
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park_timeout(std::time::Duration::from_millis(1)),
        }
    }
}
fn get(s: &StorageSegment, k: &str, now: Instant) -> Option<Vec<u8>> {
    run(s.get_async(k.to_string().into(), now)).map(|b| b.to_vec())
}
fn set(s: &StorageSegment, k: &str, v: &[u8], expired: Option<Instant>) {
    let _ = s.set_async(k.to_string().into(), Bytes::copy_from_slice(v), SetOptions { expired });
}
fn at(base: Instant, ms: i64) -> Instant {
    if ms >= 0 { base + CDur::from_millis(ms as u64) } else { base - CDur::from_millis((-ms) as u64) }
}

/// Histories on one thread, against a map.
fn histories(p: &'static str, r: &mut Rng, n: u64) -> u64 {
    let base = Instant::now() + CDur::from_secs(1_000_000);
    let s = StorageSegment::new(Slot::from(0..16384));
    let mut m: HashMap<String, (Vec<u8>, Option<i64>)> = HashMap::new();
    let mut now_ms = 0i64;
    let mut hist: Vec<String> = vec![];
    for _ in 0..n {
        now_ms += match r.below(4) { 0 => r.below(3) as i64, 1 => r.below(200) as i64, _ => 0 };
        let k = match r.below(10) { 0 => "".to_string(), 1 => "k\u{e9}".to_string(), 2 => "x".repeat(100), i => format!("k{}", i) };
        if r.below(2) == 0 {
            let v = blob(r, 60);
            let t = match r.below(4) { 0 => None, 1 => Some(r.below(3) as i64), 2 => Some(r.below(300) as i64), _ => Some(1 + r.below(1_000_000) as i64) };
            hist.push(format!("at {} ms SET {} {} life {:?}", now_ms, k, show(&v), t));
            now(hist[hist.len().saturating_sub(8)..].join("; "));
            set(&s, &k, &v, t.map(|t| at(base, now_ms + t)));
            m.insert(k, (v, t.map(|t| now_ms + t)));
        } else {
            // the instants around the deadline, but not the deadline itself
            let e = m.get(&k).cloned();
            let when = match &e { Some((_, Some(d))) if r.below(2) == 0 => (*d + if r.below(2) == 0 { 1 } else { -1 }).max(now_ms), _ => now_ms };
            now_ms = when;
            hist.push(format!("at {} ms GET {}", when, k));
            now(hist[hist.len().saturating_sub(8)..].join("; "));
            let g = get(&s, &k, at(base, when));
            let w = match &e { None => None, Some((_, Some(d))) if when > *d => None, Some((_, Some(d))) if when == *d => continue, Some((v, _)) => Some(v.clone()) };
            if g != w { fail(p, &format!("{}: GET returns {:?} instead of {:?}", hist[hist.len().saturating_sub(8)..].join("; "), g.map(|x| show(&x)), w.map(|x| show(&x)))) }
            if w.is_none() { m.remove(&k); }
        }
    }
    n
}
/// Threads that SET, GET and let expire the same few keys.
fn races(p: &'static str, r: &mut Rng, n: u64) -> u64 {
    let base = Instant::now() + CDur::from_secs(1_000_000);
    let s = StorageSegment::new(Slot::from(0..16384));
    // a SET that is over is seen by every GET that starts after it, whatever expires meanwhile
    let threads = 6usize;
    let bar = Arc::new(Barrier::new(threads + 1));
    let round = Arc::new(AtomicU64::new(0));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (s, bar, round) = (s.clone(), bar.clone(), round.clone());
            sc.spawn(move || loop {
                bar.wait();
                let i = round.load(Ordering::Acquire);
                if i == u64::MAX { break }
                let k = format!("r{}", i % 5);
                for z in 0..(i % 7) * 40 * t as u64 { std::hint::black_box(z); }
                if t == 0 {
                    set(&s, &k, format!("new{}", i).as_bytes(), None);
                    let g = get(&s, &k, at(base, 10));
                    if g.as_deref() != Some(format!("new{}", i).as_bytes()) { fail(p, &format!("a SET over an expired key, while {} other threads GET it, is lost: GET returns {:?}", threads - 1, g.map(|x| show(&x)))) }
                } else {
                    let g = get(&s, &k, at(base, 10));
                    if let Some(g) = g { if g != format!("new{}", i).as_bytes() { fail(p, &format!("GET of an expired key returns {}", show(&g))) } }
                }
                bar.wait();
            });
        }
        for i in 0..n {
            // expired at the instant of the GETs
            set(&s, &format!("r{}", i % 5), b"old", Some(at(base, 5)));
            round.store(i, Ordering::Release);
            bar.wait();
            bar.wait();
            let g = get(&s, &format!("r{}", i % 5), at(base, 20));
            if g.as_deref() != Some(format!("new{}", i).as_bytes()) { fail(p, &format!("an acknowledged SET is lost after concurrent GETs of the expired key: GET returns {:?}", g.map(|x| show(&x)))) }
        }
        round.store(u64::MAX, Ordering::Release);
        bar.wait();
    });
    // several writers of one key: reads never go back to a value overwritten before
    let seq: Vec<AtomicU64> = (0..4).map(|_| AtomicU64::new(0)).collect();
    let total = n * 4;
    std::thread::scope(|sc| {
        for t in 0..4usize {
            let s = s.clone();
            let seq = &seq;
            sc.spawn(move || for i in 1..=total {
                // each thread owns one key, all share the segment
                let k = format!("w{}", t);
                let live = if i % 3 == 0 { Some(at(base, 5 + (i % 11) as i64)) } else { None };
                set(&s, &k, &i.to_le_bytes(), live);
                seq[t].store(i, Ordering::Release);
                if live.is_none() {
                    let g = get(&s, &k, at(base, 100));
                    if g.as_deref() != Some(&i.to_le_bytes()[..]) { fail(p, &format!("GET after the SET number {} of {} returns {:?}", i, k, g.map(|x| show(&x)))) }
                }
            });
        }
        for t in 0..3usize {
            let s = s.clone();
            let seq = &seq;
            sc.spawn(move || for i in 0..total {
                let k = (t + i as usize) % 4;
                let lo = seq[k].load(Ordering::Acquire);
                // before any of the deadlines
                if let Some(g) = get(&s, &format!("w{}", k), at(base, 1)) {
                    let v = u64::from_le_bytes(g[..].try_into().unwrap_or([0; 8]));
                    let hi = seq[k].load(Ordering::Acquire) + 1;
                    if v < lo || v > hi { fail(p, &format!("GET returns the SET number {} of w{} although number {} was over before it (and {} not begun)", v, k, lo, hi + 1)) }
                } else if lo > 0 { fail(p, &format!("GET of w{} returns nothing after the SET number {}", k, lo)) }
            });
        }
    });
    let _ = r;
    n + total * 7
}
/// Many keys, and many SETs of the same ones: those not set again are still there.
fn many(p: &'static str, r: &mut Rng, n: u64) -> u64 {
    let t = Instant::now();
    let s = StorageSegment::new(Slot::from(0..16384));
    let v = |i: u64| format!("v{}", i).into_bytes();
    set(&s, "first", b"1", None);
    set(&s, "long", b"2", Some(t + CDur::from_secs(1_000_000)));
    let keys = n / 8;
    let mut last = vec![0u64; keys as usize];
    for i in 1..=n {
        let k = if i <= keys { i - 1 } else { r.below(keys) };
        set(&s, &format!("m{}", k), &v(i), if i % 5 == 0 { Some(t + CDur::from_secs(1_000_000)) } else { None });
        last[k as usize] = i;
        if i.is_power_of_two() || i % 100_000 == 0 {
            for (k, w) in [("first", b"1"), ("long", b"2")] {
                let g = get(&s, k, t);
                if g.as_deref() != Some(&w[..]) { fail(p, &format!("after {} SETs of other keys, GET of a key set before them returns {:?}", i, g.map(|x| show(&x)))) }
            }
        }
    }
    for (k, i) in last.iter().enumerate() {
        let g = get(&s, &format!("m{}", k), t);
        if g != Some(v(*i)) { fail(p, &format!("after {} SETs of {} keys, GET of m{} returns {:?} instead of {:?}", n, keys, k, g.map(|x| show(&x)), show(&v(*i)))) }
    }
    n
}
fn c13(r: &mut Rng, deep: bool) -> u64 {
    let p = "C13";
    let mut ns: Vec<u16> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 100, 127];
    if deep { ns.extend([14, 15, 32, 33, 64, 129, 255, 256, 257, 300, 1000]) }
    let mut n = 0;
    for k in ns {
        now(format!("{} parts", k));
        let st = Storage::new(k, Slot::from(0..16384));
        let sl = st.slots();
        if sl.len() != k as usize { fail(p, &format!("{} parts: {} ranges", k, sl.len())) }
        let mut next = 0u32;
        for s in &sl {
            if s.start as u32 != next || s.end <= s.start { fail(p, &format!("{} parts: the ranges are {:?}", k, sl)) }
            next = s.end as u32;
        }
        if next != 16384 { fail(p, &format!("{} parts: the ranges end at {}", k, next)) }
        let g = st.global_slot();
        if g.start != 0 || g.end != 16384 { fail(p, &format!("the whole range is {:?}", g)) }
        let mut idx: Vec<u16> = (0..k).chain([k, k + 1, 2 * k, 2 * k + 1, 255, 256, 257, 65535, 65534, 32768]).collect();
        for _ in 0..20 { idx.push(r.next() as u16) }
        let segs: Vec<_> = (0..k).map(|i| st.part(i)).collect();
        for (i, (s, seg)) in segs.iter().enumerate() {
            set(seg, "mark", &[i as u8, (i >> 8) as u8], None);
            if s.start != sl[i].start || s.end != sl[i].end { fail(p, &format!("{} parts: part {} is given {:?} instead of {:?}", k, i, s, sl[i])) }
            for x in [0u16, 1, s.start, s.end, s.end - 1, s.start.saturating_sub(1), 16383, r.below(16384) as u16] {
                let w = x >= s.start && x < s.end;
                if seg.is_in_slot(x) != w { fail(p, &format!("{} parts: slot {} in part {} ({:?}): {}", k, x, i, s, !w)) }
            }
        }
        for i in idx {
            now(format!("{} parts, thread {}", k, i));
            let (s, seg) = st.part(i);
            let m = (i % k) as usize;
            if s.start != sl[m].start || s.end != sl[m].end { fail(p, &format!("{} parts: thread {} is given {:?} instead of {:?}", k, i, s, sl[m])) }
            if get(&seg, "mark", Instant::now()) != Some(vec![m as u8, (m >> 8) as u8]) { fail(p, &format!("{} parts: thread {} is given another segment than the one of part {}", k, i, m)) }
            n += 1;
        }
        // the dialer gives the same range
        let cpus = 2 * k as usize + 1;
        if let Ok(mesh) = sharded_thread::mesh::MeshBuilder::new(cpus) {
            let d = RootDialer::new(mesh, &st);
            for i in 0..cpus as u16 {
                now(format!("dialer of {} parts, thread {}", k, i));
                match d.part(i) {
                    Err(e) => fail(p, &format!("dialer of {} parts, thread {}: {}", k, i, e)),
                    Ok(x) => {
                        let t = format!("{:?}", x);
                        if let Some(z) = t.find("local_slot: Slot(") {
                            let z = &t[z + 17..];
                            let z = z.split(')').next().unwrap_or("");
                            let w = &sl[(i % k) as usize];
                            let w = format!("{}..{}", w.start, w.end);
                            if z.contains("..") && z != w { fail(p, &format!("dialer of {} parts: thread {} is given {} instead of {}", k, i, z, w)) }
                        }
                    }
                }
                n += 1;
            }
        }
    }
    n
}
fn main() {
    let (prop, seed, deep) = args();
    let p: &'static str = Box::leak(prop.into_boxed_str());
    setup(p);
    let mut r = Rng::new(seed);
    let n = match p {
        "C06" => many(p, &mut r, if deep { 5_000_000 } else { 1_300_000 }) + histories(p, &mut r, if deep { 3_000_000 } else { 100_000 }) + races(p, &mut r, if deep { 400_000 } else { 15_000 }),
        "C07" => histories(p, &mut r, if deep { 4_000_000 } else { 200_000 }),
        "C13" => c13(&mut r, deep),
        _ => std::process::exit(3),
    };
    println!("SAMPLE {} operations on the storage", n);
    println!("DONE {}", n);
    std::process::exit(0)
}
