//! The supervisor, in process: connections (C10), their names (C11).
use harness::*;
use roster::application::server::verif::{MetadataConnection, Supervisor};
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::pin::pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

struct W(std::thread::Thread);
impl Wake for W {
    fn wake(self: Arc<Self>) { self.0.unpark() }
}
fn run<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(W(std::thread::current())));
    let mut f = pin!(f);
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park_timeout(std::time::Duration::from_millis(1)),
        }
    }
}
struct Known {
    c: Arc<MetadataConnection>,
    id: u64,
    addr: SocketAddr,
    laddr: SocketAddr,
    fd: i32,
    name: Vec<u8>,
    live: bool,
}
fn some_addr(r: &mut Rng) -> SocketAddr {
    let ip: IpAddr = match r.below(4) {
        0 => Ipv4Addr::new(127, 0, 0, 1 + r.below(3) as u8).into(),
        1 => Ipv4Addr::from(r.next() as u32).into(),
        2 => Ipv6Addr::LOCALHOST.into(),
        _ => Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128).into(),
    };
    SocketAddr::new(ip, if r.below(2) == 0 { 5000 + r.below(3) as u16 } else { r.next() as u16 })
}
fn check(p: &'static str, s: &Supervisor, ks: &[Known]) {
    let l = run(s.get_normal_connection());
    for k in ks {
        let n = l.iter().filter(|x| x.id() == k.id).count();
        let w = if k.live { 1 } else { 0 };
        if n != w { fail(p, &format!("the connection {} from {} ({}) is listed {} times, among {} live", k.id, k.addr, if k.live { "live" } else { "ended" }, n, ks.iter().filter(|k| k.live).count())) }
        if let Some(x) = l.iter().find(|x| x.id() == k.id) {
            if x.addr != k.addr || x.laddr != k.laddr || x.fd != k.fd { fail(p, &format!("the connection {} from {} is listed as {:?}", k.id, k.addr, x)) }
        }
    }
    if l.len() != ks.iter().filter(|k| k.live).count() { fail(p, &format!("{} connections are listed, {} live", l.len(), ks.iter().filter(|k| k.live).count())) }
}
fn history(p: &'static str, r: &mut Rng, n: u64) {
    let first = match r.below(4) { 0 => 0, 1 => r.below(1000), 2 => (1u64 << *r.pick(&[8, 15, 16, 31, 32, 48, 53, 62, 63])).wrapping_sub(r.below(40)), _ => r.next() >> 1 };
    let s = Supervisor::new(first);
    let mut ks: Vec<Known> = vec![];
    for i in 0..n {
        now(format!("step {} of a history on a supervisor that starts at {}", i, first));
        match r.below(if ks.len() > 600 { 12 } else { 8 }) {
            0..=3 => {
                let (addr, laddr, fd) = (some_addr(r), some_addr(r), match r.below(3) { 0 => -1, 1 => r.below(4) as i32, _ => r.next() as i32 });
                let c = s.assign_new_connection(addr, laddr, fd);
                let id = c.id();
                if let Some(k) = ks.last() { if id <= k.id { fail(p, &format!("a connection established after {} has the id {}", k.id, id)) } }
                if c.addr != addr || c.laddr != laddr || c.fd != fd { fail(p, &format!("a connection from {} to {} ({}) is entered as {:?}", addr, laddr, fd, c)) }
                ks.push(Known { c, id, addr, laddr, fd, name: vec![], live: true });
            }
            4 | 8.. => if !ks.is_empty() {
                let j = r.below(ks.len() as u64) as usize;
                ks[j].c.stop();
                ks[j].live = false;
            },
            5 => if !ks.is_empty() {
                let j = r.below(ks.len() as u64) as usize;
                let n: Vec<u8> = match r.below(4) { 0 => vec![], 1 => vec![b'n'; 1 + size(r, 2000) as usize], _ => (0..1 + r.below(12)).map(|_| 33 + r.below(94) as u8).collect() };
                run(ks[j].c.set_name(String::from_utf8(n.clone()).unwrap().into()));
                ks[j].name = n;
            },
            _ => if !ks.is_empty() {
                let j = r.below(ks.len() as u64) as usize;
                let k = &ks[j];
                let g = run(k.c.name()).map(|n| n.as_bytes().to_vec()).unwrap_or_default();
                if g != k.name { fail(p, &format!("the name of connection {} is {} instead of {}", k.id, show(&g), show(&k.name))) }
                let t = run(k.c.format_conn());
                let w = format!("id={} addr={} laddr={} fd={} name={}", k.id, k.addr, k.laddr, k.fd, String::from_utf8_lossy(&k.name));
                let f = |t: &str| model::fields(t.as_bytes()).map(|f| ["id", "addr", "laddr", "fd", "name"].map(|x| model::field(&f, x).map(|y| y.to_string())));
                if f(&t) != f(&w) || f(&t).is_none() { fail(p, &format!("the description {} instead of {}", show(t.as_bytes()), show(w.as_bytes()))) }
            },
        }
        if i % 16 == 0 { check(p, &s, &ks) }
        let _ = &ks;
    }
    check(p, &s, &ks);
}
/// Connections made and ended by several threads while others list them.
fn threads(p: &'static str, n: u64) {
    let s = Supervisor::new(0);
    let keep: Vec<_> = (0..20).map(|i| s.assign_new_connection(SocketAddr::new(Ipv4Addr::LOCALHOST.into(), i), SocketAddr::new(Ipv4Addr::LOCALHOST.into(), 1), 3)).collect();
    let ids: Mutex<Vec<u64>> = Mutex::new(keep.iter().map(|k| k.id()).collect());
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut ts = vec![];
        for t in 0..5u64 {
            let (s, ids) = (s.clone(), &ids);
            ts.push(sc.spawn(move || {
                let mut r = Rng::new(t + 77);
                let mut mine = vec![];
                let mut live: Vec<Arc<MetadataConnection>> = vec![];
                for _ in 0..n {
                    let c = s.assign_new_connection(some_addr(&mut r), some_addr(&mut r), 5);
                    if let Some(l) = mine.last() { if c.id() <= *l { fail(p, &format!("a connection established after {} has the id {}", l, c.id())) } }
                    mine.push(c.id());
                    live.push(c);
                    if live.len() > 30 { let j = r.below(live.len() as u64) as usize; live.swap_remove(j).stop() }
                    if r.below(40) == 0 {
                        let l = run(s.get_normal_connection());
                        for c in &live { if l.iter().filter(|x| x.id() == c.id()).count() != 1 { fail(p, &format!("the live connection {} is listed {} times while others come and go", c.id(), l.iter().filter(|x| x.id() == c.id()).count())) } }
                    }
                }
                for c in live { c.stop() }
                ids.lock().unwrap().extend(mine);
            }));
        }
        let (s2, keep, done) = (s.clone(), &keep, &done);
        let w = sc.spawn(move || while !done.load(std::sync::atomic::Ordering::Relaxed) {
            let l = run(s2.get_normal_connection());
            for c in keep { if l.iter().filter(|x| x.id() == c.id()).count() != 1 { fail(p, &format!("the live connection {} is listed {} times while others come and go", c.id(), l.iter().filter(|x| x.id() == c.id()).count())) } }
        });
        for t in ts { let _ = t.join(); }
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = w.join();
    });
    let mut v = ids.into_inner().unwrap();
    let k = v.len();
    v.sort();
    v.dedup();
    if v.len() != k { fail(p, "an id was given to two connections") }
    let l = run(s.get_normal_connection());
    if l.len() != keep.len() { fail(p, &format!("{} connections are listed, {} live", l.len(), keep.len())) }
}
fn main() {
    let (prop, seed, deep) = args();
    let p: &'static str = Box::leak(prop.into_boxed_str());
    setup(p);
    let mut r = Rng::new(seed);
    let n = if deep { 4000 } else { 50 };
    let steps = 400;
    for i in 0..n { history(p, &mut r, if i % 10 == 9 { 3000 } else { steps }) }
    let t = if deep { 60_000 } else { 3_000 };
    if p == "C10" { threads(p, t) }
    println!("SAMPLE {} operations on the connections of a supervisor", n * steps + 5 * t);
    println!("DONE {}", n * steps + 5 * t);
    std::process::exit(0)
}
