ID="c06-longkey"; PROPERTY="C06"
NEEDS="two keys of more than 512 bytes that differ only after byte 512"
BREAKS="long keys are cut to 512 bytes, so one key changes another"
EDITS=[("application/server/cmd/set.rs","""        let key = parse.next_string()?;

        // Read the value to set. This is a required field.""","""        let key = parse.next_string()?;
        let key = match key.get(..512) {
            Some(head) if key.len() > 512 => ByteString::from(head),
            _ => key,
        };

        // Read the value to set. This is a required field."""),
("application/server/cmd/get.rs","""        let key = parse.next_string()?;
        Ok(Get { key })""","""        let key = parse.next_string()?;
        let key = match key.get(..512) {
            Some(head) if key.len() > 512 => ByteString::from(head),
            _ => key,
        };
        Ok(Get { key })""")]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    let mut c = Client::new(a);
    for n in [10usize, 511, 512, 513, 600, 5000] {
        let x = vec![b'k'; n];
        let mut y = x.clone();
        y[n - 1] = b'z';
        check(c.call(&[b"SET", &x, b"1"]) == b"+OK\r\n", "SET x");
        check(c.call(&[b"SET", &y, b"2"]) == b"+OK\r\n", "SET y");
        let r = c.call(&[b"GET", &x]);
        check(r == b"$1\r\n1\r\n", &format!("GET of a key of {} bytes: {}", n, show(&r)));
    }
}
'''
