ID="c03-long-bulk"; PROPERTY="C03"
NEEDS="a reply with a bulk string of 65536 bytes or more"
BREAKS="the length announced for a long bulk string is truncated to 16 bits, so the client reads the rest of the value as other replies"
EDITS=[("application/server/frame/write.rs","""        Frame::Bulk(val) => {
            let len = val.len();
""","""        Frame::Bulk(val) => {
            let len = val.len() as u16;
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    for n in [10usize, 65535, 70000] {
        let v = vec![b'x'; n];
        check(c.call(&[b"SET", b"k", &v]) == b"+OK\r\n", "SET");
        let r = c.call(&[b"GET", b"k"]);
        let mut want = format!("${}\r\n", n).into_bytes();
        want.extend(&v);
        want.extend(b"\r\n");
        check(r == want, &format!("GET of {} bytes: {} bytes", n, r.len()));
    }
}
'''
