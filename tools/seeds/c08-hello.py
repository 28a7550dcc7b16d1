ID="c08-hello"; PROPERTY="C08"
NEEDS="a connection whose id is above 255"
BREAKS="HELLO reports the id modulo 256"
EDITS=[("application/server/cmd/hello.rs","""        let id = ctx.connection.id();
""","""        let id = u64::from(ctx.connection.id() as u8);
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut cs: Vec<Client> = (0..280).map(|_| Client::new(a)).collect();
    for c in cs.iter_mut() {
        let id = c.call(&[b"CLIENT", b"ID"]);
        let h = c.call(&[b"HELLO"]);
        let w = [&b"$2\r\nid\r\n"[..], &id].concat();
        check(h.windows(w.len()).any(|x| x == w), &format!("id {} in HELLO {}", show(&id), show(&h)));
    }
}
'''
