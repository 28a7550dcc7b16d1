ID="c10-race"; PROPERTY="C10"
NEEDS="two connections accepted at the same time by two threads"
BREAKS="the id is read and incremented in two steps, so two connections get the same one (or the server stops)"
EDITS=[("application/server/supervisor/mod.rs","""        let id = self
            .current_id
            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
""","""        let id = self.current_id.load(std::sync::atomic::Ordering::Relaxed);
        self.current_id
            .store(id + 1, std::sync::atomic::Ordering::Relaxed);
"""),("application/server/supervisor/mod.rs","""        self.current_connections
            .insert(id, conn.clone())
            .expect("Can't fail");
""","""        let _ = self.current_connections.insert(id, conn.clone());
""")]
DEMO=r'''mod common;
use common::*;
use roster::application::server::verif::Supervisor;
use std::collections::HashSet;
use std::sync::{Arc, Barrier, Mutex};
fn main() {
    let s = Supervisor::new(0);
    let all = Arc::new(Mutex::new(HashSet::new()));
    let bar = Arc::new(Barrier::new(8));
    let ts: Vec<_> = (0..8).map(|_| {
        let (s, all, bar) = (s.clone(), all.clone(), bar.clone());
        std::thread::spawn(move || {
            let a = "127.0.0.1:1".parse().unwrap();
            bar.wait();
            let ids: Vec<u64> = (0..20000).map(|_| s.assign_new_connection(a, a, 1).id).collect();
            let mut g = all.lock().unwrap();
            ids.into_iter().filter(|i| !g.insert(*i)).count()
        })
    }).collect();
    let twice: usize = ts.into_iter().map(|t| t.join().unwrap()).sum();
    check(twice == 0, &format!("{} ids given twice", twice));
}
'''
