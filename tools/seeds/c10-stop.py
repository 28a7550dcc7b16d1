ID="c10-stop"; PROPERTY="C10"
NEEDS="a connection that ends with an error while it still has a name"
BREAKS="a connection that has a name and fails is never marked as ended, so CLIENT LIST keeps showing it"
EDITS=[("application/server/server_thread.rs","""                        meta_conn.stop();
                        // handler""","""                        if meta_conn.name().await.is_none() || clean {
                            meta_conn.stop();
                        }
                        // handler"""),("application/server/server_thread.rs","""                        if let Err(err) = handler.run(ctx).await {
""","""                        let res = handler.run(ctx).await;
                        let clean = res.is_ok();
                        if let Err(err) = res {
""")]
DEMO=r'''mod common;
use common::*;
use std::time::Duration;
fn main() {
    let a = server();
    let mut w = Client::new(a);
    for named in [false, true] {
        for bad in [&b"*1\r\n$3\r\nGET\r\n"[..], b"?\r\n"] {
            let mut c = Client::new(a);
            let id = c.call(&[b"CLIENT", b"ID"]);
            let id = String::from_utf8_lossy(&id[1..id.len() - 2]).to_string();
            if named { check(c.call(&[b"CLIENT", b"SETNAME", b"me"]) == b"+OK\r\n", "SETNAME"); }
            c.send(bad);
            drop(c);
            std::thread::sleep(Duration::from_millis(500));
            let l = String::from_utf8_lossy(&w.call(&[b"CLIENT", b"LIST"])).to_string();
            check(!l.contains(&format!("id={} ", id)), &format!("named {}: connection {} in {}", named, id, l.replace("\r\n", " ")));
        }
    }
}
'''
