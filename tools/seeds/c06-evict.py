ID='c06-evict'; PROPERTY='C06'
NEEDS='the two millionth SET on the server or so'
BREAKS='keys without a time to live are dropped when the number of SETs reaches a million'
EDITS=[('domain/storage/mod.rs', '        if old % 1_000_000 == 0 {\n            dbg!(old);\n        }', '        if old % 1_000_000 == 999_999 {\n            // keep the memory bounded\n            self.db.retain(|_, v| v.expired.is_some());\n        }')]
DEMO=r'''mod common;
use common::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::{SetOptions, StorageSegment};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
struct W;
impl Wake for W { fn wake(self: Arc<Self>) {} }
fn run<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(W));
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x }
        std::thread::yield_now();
    }
}
fn main() {
    let s = StorageSegment::new(Slot::from(0..16384));
    let set = |k: String| { let _ = s.set_async(k.into(), bytes::Bytes::from_static(b"v"), SetOptions { expired: None }); };
    set("first".to_string());
    for i in 0..1_000_050u64 { set(format!("k{}", i % 100)); }
    let r = run(s.get_async("first".to_string().into(), coarsetime::Instant::now()));
    check(r.is_some(), "a key is still there after a million SETs of other keys");
}
'''
