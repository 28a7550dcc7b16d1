ID='c05-prefix'; PROPERTY='C05'
NEEDS='an option that starts with PX and is not PX'
BREAKS='SET k v PXAT 1 is executed as SET k v PX 1'
EDITS=[('application/server/cmd/set.rs', 'Ok(s) if s.to_uppercase() == "PX" =>', 'Ok(s) if s.to_uppercase().starts_with("PX") =>')]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for o in ["PXAT", "PXX", "pxat"] {
        let mut c = Client::new(a);
        let r = c.call(&[b"SET", b"c05", b"v", o.as_bytes(), b"1700000000000"]);
        check(!r.starts_with(b"+"), &format!("SET with {}: {}", o, show(&r)));
        let mut c = Client::new(a);
        check(c.call(&[b"GET", b"c05"]) == b"$-1\r\n", "nothing was executed");
    }
}
'''
