ID="c11-try"; PROPERTY="C11"
NEEDS="a connection that sets its name while another one lists the connections"
BREAKS="the name is dropped when its lock is held by a reader, although SETNAME is answered OK"
EDITS=[("application/server/supervisor/mod.rs","""        let mut lock = self.name.write().await;
""","""        let Ok(mut lock) = self.name.try_write() else {
            return;
        };
""")]
DEMO=r'''mod common;
use common::*;
use roster::application::server::verif::{MetadataConnection, Supervisor};
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
struct W;
impl Wake for W { fn wake(self: Arc<Self>) {} }
fn run<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(W));
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x }
        std::thread::yield_now();
    }
}
fn main() {
    let s = Supervisor::new(0);
    let a = "127.0.0.1:1".parse().unwrap();
    let c: Arc<MetadataConnection> = s.assign_new_connection(a, a, 1);
    let stop = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..4).map(|_| { let (c, stop) = (c.clone(), stop.clone()); std::thread::spawn(move || while !stop.load(Ordering::Relaxed) { run(c.format_conn()); }) }).collect();
    let mut lost = 0;
    for i in 0..20000 {
        let n = format!("n{}", i);
        run(c.set_name(n.clone().into()));
        if run(c.name()).as_deref() != Some(&n[..]) { lost += 1 }
    }
    stop.store(true, Ordering::Relaxed);
    for t in ts { t.join().unwrap(); }
    check(lost == 0, &format!("{} names lost", lost));
}
'''
