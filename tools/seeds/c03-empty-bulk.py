ID="c03-empty-bulk"; PROPERTY="C03"
NEEDS="a reply that contains an empty bulk string, for example the GET of a key set to the empty value"
BREAKS="the line break that ends an empty bulk string is not sent, so the next reply is read as its end"
EDITS=[("application/server/frame/write.rs","""            buf_w.write(val.slice(..)).await.0?;
            buf_w.write(&[b'\\r', b'\\n']).await.0?;
        }
        Frame::Map""","""            if len > 0 {
                buf_w.write(val.slice(..)).await.0?;
                buf_w.write(&[b'\\r', b'\\n']).await.0?;
            }
        }
        Frame::Map""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    check(c.call(&[b"SET", b"k", b""]) == b"+OK\r\n", "SET k ''");
    check(c.call(&[b"PING", b"x"]) == b"$1\r\nx\r\n", "PING x");
    c.send(&Client::req(&[b"GET", b"k"]));
    c.send(&Client::req(&[b"PING", b"y"]));
    let r = c.reply();
    check(r == b"$0\r\n\r\n", &format!("GET k: {}", show(&r)));
    let r = c.reply();
    check(r == b"$1\r\ny\r\n", &format!("PING y: {}", show(&r)));
}
'''
