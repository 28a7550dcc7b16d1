ID="c07-seconds"; PROPERTY="C07"
NEEDS="a time to live in milliseconds that is not a whole number of seconds"
BREAKS="the milliseconds of a time to live above a second are dropped: the key expires early"
EDITS=[("application/server/cmd/set.rs","""                expire = Some(Duration::from_millis(ms));
""","""                expire = Some(if ms > 1000 {
                    Duration::from_secs(ms / 1000)
                } else {
                    Duration::from_millis(ms)
                });
""")]
DEMO=r'''mod common;
use common::*;
use std::time::{Duration, Instant};
fn main() {
    let a = server();
    let mut c = Client::new(a);
    let t = Instant::now();
    check(c.call(&[b"SET", b"k", b"v", b"PX", b"1900"]) == b"+OK\r\n", "SET");
    std::thread::sleep(Duration::from_millis(1300));
    let r = c.call(&[b"GET", b"k"]);
    let e = t.elapsed();
    check(r == b"$1\r\nv\r\n" || e > Duration::from_millis(1850), &format!("GET after {:?}: {}", e, show(&r)));
    std::thread::sleep(Duration::from_millis(900));
    let r = c.call(&[b"GET", b"k"]);
    check(r == b"$-1\r\n", &format!("GET after 2.2 s: {}", show(&r)));
}
'''
