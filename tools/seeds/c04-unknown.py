ID="c04-unknown"; PROPERTY="C04"
NEEDS="an unknown command whose name is longer than 128 bytes and has a multi-byte character across byte 128"
BREAKS="the server stops (slice inside a character)"
EDITS=[("application/server/cmd/unknown.rs","""            "ERR unknown command '{}'",
            self.command_name
        )));""","""            "ERR unknown command '{}'",
            &self.command_name[..self.command_name.len().min(128)]
        )));""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for pad in 0..4usize {
        let n = format!("{}{}", "x".repeat(pad), "\u{1F600}".repeat(60));
        let mut c = Client::new(a);
        let r = c.call(&[n.as_bytes()]);
        check(r.starts_with(b"-ERR"), &format!("unknown command of {} bytes: {}", n.len(), show(&r)));
        let mut o = Client::new(a);
        check(o.call(&[b"PING"]) == b"+PONG\r\n", "another connection is served");
    }
}
'''
