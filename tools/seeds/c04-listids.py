ID="c04-listids"; PROPERTY="C04"
NEEDS="CLIENT LIST with an ID filter larger than 2^32"
BREAKS="the server stops (overflow) on an id filter that no 32-bit number holds"
EDITS=[("application/server/cmd/client/list.rs","""                        Ok(id) => {
                            ids.push(id);""","""                        Ok(id) => {
                            // Ids are small: reject absurd filters early.
                            let _bucket = u32::try_from(id).unwrap();
                            ids.push(id);""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for id in ["1", "4294967295", "4294967296", "18446744073709551615"] {
        let mut c = Client::new(a);
        let r = c.call(&[b"CLIENT", b"LIST", b"ID", id.as_bytes()]);
        check(r.starts_with(b"*"), &format!("CLIENT LIST ID {}: {}", id, show(&r)));
        let mut o = Client::new(a);
        check(o.call(&[b"PING"]) == b"+PONG\r\n", "another connection is served");
    }
}
'''
