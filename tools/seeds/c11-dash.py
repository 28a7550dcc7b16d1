ID='c11-dash'; PROPERTY='C11'
NEEDS='a name that starts with a dash'
BREAKS='GETNAME answers nil for it, though SETNAME was answered OK'
EDITS=[('application/server/cmd/client/get_name.rs', 'name().await', "name().await.filter(|x| !x.starts_with('-'))")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for n in ["a", "-", "-worker", "w-1"] {
        let mut c = Client::new(a);
        check(c.call(&[b"CLIENT", b"SETNAME", n.as_bytes()]) == b"+OK\r\n", "SETNAME");
        let r = c.call(&[b"CLIENT", b"GETNAME"]);
        check(r == format!("${}\r\n{}\r\n", n.len(), n).into_bytes(), &format!("GETNAME of {}: {}", n, show(&r)));
    }
}
'''
