ID="c07-large"; PROPERTY="C07"
NEEDS="a time to live in seconds of 2^32 or more"
BREAKS="the number of seconds is cut to 32 bits, so a key with a huge time to live expires soon"
EDITS=[("application/server/cmd/set.rs","""                expire = Some(Duration::from_secs(secs));
""","""                expire = Some(Duration::from_secs(u64::from(secs as u32)));
""")]
DEMO=r'''mod common;
use common::*;
use std::time::Duration;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    check(c.call(&[b"SET", b"k", b"v", b"EX", b"4294967297"]) == b"+OK\r\n", "SET");
    check(c.call(&[b"GET", b"k"]) == b"$1\r\nv\r\n", "GET");
    std::thread::sleep(Duration::from_millis(1500));
    let r = c.call(&[b"GET", b"k"]);
    check(r == b"$1\r\nv\r\n", &format!("GET 1.5 s later: {}", show(&r)));
}
'''
