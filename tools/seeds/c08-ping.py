ID="c08-ping"; PROPERTY="C08"
NEEDS="PING with an empty argument"
BREAKS="PING with an empty argument answers PONG instead of the empty bulk string"
EDITS=[("application/server/cmd/ping.rs","""            None => Frame::Simple(ByteString::from_static("PONG")),
            Some(msg) => Frame::Bulk(msg),""","""            Some(msg) if !msg.is_empty() => Frame::Bulk(msg),
            _ => Frame::Simple(ByteString::from_static("PONG")),""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    check(c.call(&[b"PING"]) == b"+PONG\r\n", "PING");
    check(c.call(&[b"PING", b"x"]) == b"$1\r\nx\r\n", "PING x");
    let r = c.call(&[b"PING", b""]);
    check(r == b"$0\r\n\r\n", &format!("PING '': {}", show(&r)));
}
'''
