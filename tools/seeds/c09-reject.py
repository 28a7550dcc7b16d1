ID="c09-reject"; PROPERTY="C09"
NEEDS="a rejected request with others pipelined after it"
BREAKS="a rejected request is skipped: it has no reply, and the requests after it are executed and answered in its place"
EDITS=[("application/server/handle.rs","""                let cmd = Command::from_frame(frame)?;
""","""                let Ok(cmd) = Command::from_frame(frame) else {
                    continue;
                };
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    let mut s = Client::req(&[b"PING", b"1"]);
    s.extend(Client::req(&[b"GET"]));
    s.extend(Client::req(&[b"SET", b"after", b"executed"]));
    c.send(&s);
    check(c.reply() == b"$1\r\n1\r\n", "PING");
    let r = c.reply();
    check(!r.starts_with(b"+"), &format!("after a rejected request: {}", show(&r)));
    let mut o = Client::new(a);
    let r = o.call(&[b"GET", b"after"]);
    check(r == b"$-1\r\n", &format!("GET: {}", show(&r)));
}
'''
