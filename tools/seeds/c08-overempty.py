ID='c08-overempty'; PROPERTY='C08'
NEEDS='a SET over a key whose value is the empty string'
BREAKS='SET answers nil instead of OK'
EDITS=[('application/server/cmd/set.rs', '            Ok(_) => Frame::Simple(OK_STR.clone()),', '            Ok(Some(old)) if old.val.is_empty() => Frame::Null,\n            Ok(_) => Frame::Simple(OK_STR.clone()),')]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    for v in ["", "x", "", "", "y"] {
        let r = c.call(&[b"SET", b"c08", v.as_bytes()]);
        check(r == b"+OK\r\n", &format!("SET to {:?}: {}", v, show(&r)));
    }
}
'''
