ID="c05-extra"; PROPERTY="C05"
NEEDS="a GET with more than one argument"
BREAKS="extra arguments of GET are ignored instead of rejecting the request"
EDITS=[("application/server/cmd/mod.rs","""            "get" => Command::Get(Get::parse_frames(&mut parse)?),
""","""            "get" => {
                return Ok(Command::Get(Get::parse_frames(&mut parse)?));
            }
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    check(c.call(&[b"SET", b"k", b"v"]) == b"+OK\r\n", "SET");
    check(c.call(&[b"GET", b"k"]) == b"$1\r\nv\r\n", "GET");
    let r = c.call(&[b"GET", b"k", b"extra"]);
    check(!r.starts_with(b"$"), &format!("GET with an extra argument: {}", show(&r)));
}
'''
