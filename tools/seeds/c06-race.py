ID="c06-race"; PROPERTY="C06"
NEEDS="a SET of a key between the moment a GET finds it expired and the moment it removes it, on another thread"
BREAKS="an acknowledged SET is removed by a concurrent GET that found the previous value expired"
EDITS=[("domain/storage/mod.rs","""        match self.db.entry_async(key).await {
            scc::hash_map::Entry::Occupied(oqp) => {""","""        match self.db.entry_async(key.clone()).await {
            scc::hash_map::Entry::Occupied(oqp) => {"""),
("domain/storage/mod.rs","""                    let _ = oqp.remove();
                    None""","""                    // Do not hold the bucket while the value is dropped.
                    drop(oqp);
                    self.db.remove_async(&key).await;
                    None""")]
DEMO=r'''mod common;
use common::*;
use bytes::Bytes;
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, StorageSegment};
use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Wake, Waker};
struct W;
impl Wake for W { fn wake(self: Arc<Self>) {} }
fn run<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(W));
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x }
        std::thread::yield_now();
    }
}
fn main() {
    let s = StorageSegment::new(Slot::from(0..16384));
    let t0 = coarsetime::Instant::now();
    let later = t0 + coarsetime::Duration::from_secs(10);
    let bar = Arc::new(Barrier::new(4));
    let lost = Arc::new(AtomicU64::new(0));
    let ts: Vec<_> = (0..4).map(|t| {
        let (s, bar, lost) = (s.clone(), bar.clone(), lost.clone());
        std::thread::spawn(move || for i in 0..60000u64 {
            if t == 0 { let _ = s.set_async("k".into(), Bytes::from("old"), SetOptions { expired: Some(t0) }); }
            bar.wait();
            for z in 0..(i % 13) * 20 { std::hint::black_box(z); }
            if t == 0 { let _ = s.set_async("k".into(), Bytes::from("new"), SetOptions { expired: None }); }
            else { run(s.get_async("k".into(), later)); }
            bar.wait();
            if t == 0 && run(s.get_async("k".into(), later)).as_deref() != Some(b"new") { lost.fetch_add(1, Ordering::SeqCst); }
        })
    }).collect();
    for t in ts { t.join().unwrap(); }
    let n = lost.load(Ordering::SeqCst);
    check(n == 0, &format!("{} SETs lost", n));
}
'''
