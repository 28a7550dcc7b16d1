ID="c05-number"; PROPERTY="C05"
NEEDS="SET with a time to live given as a simple string with something after the digits"
BREAKS="a number followed by other characters is accepted as the number"
EDITS=[("application/server/cmd/parse.rs","""        use atoi_simd::parse;
""","""        use atoi_simd::{parse, parse_until_invalid};
"""),("application/server/cmd/parse.rs","""                parse::<u64>(data.as_bytes()).map_err(|_| MSG.into())
""","""                // Inline commands may carry trailing blanks.
                parse_until_invalid::<u64>(data.as_bytes())
                    .map(|(n, _)| n)
                    .map_err(|_| MSG.into())
""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for (t, ok) in [("100", true), ("100x", false), ("1 0", false)] {
        let mut c = Client::new(a);
        c.send(format!("*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n+{}\r\n", t).as_bytes());
        let r = c.reply();
        check((r == b"+OK\r\n") == ok, &format!("EX {}: {}", t, show(&r)));
    }
}
'''
