//! The deadline a SET leaves (C07), in process, for lives of all sizes.
use bytes::Bytes;
use coarsetime::Instant;
use harness::*;
use roster::application::server::frame::Frame;
use roster::application::server::verif::{Command, CommandExecution, Context, Supervisor, WriteConnection};
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, StorageSegment};

fn main() {
    setup("C07");
    let (_, seed, deep) = args();
    let mut rt = monoio::RuntimeBuilder::<monoio::IoUringDriver>::new().enable_timer().build().unwrap();
    let n = rt.block_on(async move {
        let l = monoio::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        std::thread::spawn(move || {
            let mut c = std::net::TcpStream::connect(addr).unwrap();
            let _ = std::io::copy(&mut c, &mut std::io::sink());
        });
        let (c, from) = l.accept().await.unwrap();
        let (mut w, _r) = WriteConnection::new(c, 4096);
        let seg = StorageSegment::new(Slot::from(0..16384));
        let sup = Supervisor::new(0);
        let conn = sup.assign_new_connection(from, addr, 3);
        let ctx = Context::new(seg.clone(), sup, conn);
        let mut r = Rng::new(seed);
        let mut ns: Vec<u64> = (0..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1, (1u64 << b) + 1]).collect();
        ns.extend((0..20).map(|d| 10u64.pow(d)));
        ns.extend([u64::MAX, u64::MAX - 1, u64::MAX / 1000, u64::MAX / 1000 + 1, u32::MAX as u64 / 2, u32::MAX as u64 / 2 * 1000]);
        for _ in 0..(if deep { 400_000 } else { 6000 }) { let s = r.below(64); ns.push(r.next() >> s) }
        let far = 1u64 << 30; // seconds: well within the clock
        let mut n = 0u64;
        for t in ns {
            for ex in [true, false] {
                let key = r.below(4);
                let key = format!("k{}", key);
                let v = V::Array(vec![V::Bulk(b"SET".to_vec()), V::Bulk(key.clone().into()), V::Bulk(b"v".to_vec()), V::Bulk(if ex { b"EX".to_vec() } else { b"PX".to_vec() }), V::Int(t)]);
                now(format!("the request {}", show(&encoded(&v))));
                let f = Frame::Array(vec![Frame::Bulk(Bytes::from("SET")), Frame::Bulk(Bytes::from(key.clone())), Frame::Bulk(Bytes::from("v")), Frame::Bulk(Bytes::from(if ex { "EX" } else { "PX" })), Frame::Integer(t)]);
                let cmd = match Command::from_frame(f) { Ok(c) => c, Err(e) => { if t == 0 { continue } fail("C07", &format!("{} is rejected: {}", show(&encoded(&v)), e)) } };
                let t0 = Instant::now();
                if let Err(e) = cmd.apply(&mut w, ctx.clone()).await { fail("C07", &format!("{}: {}", show(&encoded(&v)), e)) }
                let t1 = Instant::now();
                // what it left: the old value of the next SET
                let old = seg.set_async(key.clone().into(), Bytes::from("w"), SetOptions { expired: None });
                let old = match old { Ok(Some(o)) => o, _ => fail("C07", &format!("{} left nothing", show(&encoded(&v)))) };
                if old.val != b"v" { fail("C07", &format!("{} left {}", show(&encoded(&v)), show(&old.val))) }
                let secs = if ex { t } else { t / 1000 };
                match old.expired {
                    None => if secs < far { fail("C07", &format!("{} left a key that never expires", show(&encoded(&v)))) },
                    Some(d) => {
                        // nanoseconds; the clock has a resolution of its own
                        let life = if ex { (t as u128) * 1_000_000_000 } else { (t as u128) * 1_000_000 };
                        let life = life.min(far as u128 * 1_000_000_000);
                        let ns = |i: Instant| -> i128 { let z = i.duration_since(t0); z.as_nanos() as i128 };
                        if d < t0 { fail("C07", &format!("{}: the deadline is before the SET", show(&encoded(&v)))) }
                        if ns(d) + 1_000_000 < life as i128 { fail("C07", &format!("{}: the deadline is {} ns after the SET instead of {}", show(&encoded(&v)), ns(d), life)) }
                        if secs < far && ns(d) > ns(t1) + life as i128 + 1_000_000 { fail("C07", &format!("{}: the deadline is {} ns after the SET instead of {}", show(&encoded(&v)), ns(d), life)) }
                    }
                }
                n += 1;
            }
        }
        n
    });
    println!("SAMPLE {} lives", n);
    println!("DONE {}", n);
    std::process::exit(0)
}
