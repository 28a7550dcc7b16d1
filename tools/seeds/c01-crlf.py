ID="c01-crlf"; PROPERTY="C01"
NEEDS="a request that ends exactly where a read ends, with fewer than 1024 bytes following in the next read while a large request is under way"
BREAKS="when a large request has been taken, the bytes of the next one already received are discarded"
EDITS=[("application/server/connection.rs","""                if self.buffer.len() < 1024 {
                    self.buffer.reserve(4 * 1024);
                }
""","""                if len > 64 * 1024 && self.buffer.len() < 1024 {
                    // Do not keep the memory of a large request.
                    self.buffer = BytesMut::with_capacity(4 * 1024);
                } else if self.buffer.len() < 1024 {
                    self.buffer.reserve(4 * 1024);
                }
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for n in [10usize, 5000, 70000, 200000] {
        let mut c = Client::new(a);
        let mut s = Client::req(&[b"SET", b"k", &vec![b'x'; n]]);
        s.extend(Client::req(&[b"PING", b"after"]));
        c.send(&s);
        check(c.reply() == b"+OK\r\n", "SET");
        let r = c.reply();
        check(r == b"$5\r\nafter\r\n", &format!("PING after a SET of {} bytes in the same write: {}", n, show(&r)));
    }
}
'''
