ID="c02-null"; PROPERTY="C02"
NEEDS="a bulk string with a negative length other than -1"
BREAKS="a malformed null is decoded as null instead of being rejected"
EDITS=[("application/server/frame/mod.rs","""                    if line != b"-1".as_slice() {
""","""                    if line.is_empty() {
""")]
DEMO=r'''mod common;
use common::*;
use std::io::Cursor;
use bytes::{Bytes, BytesMut};
use roster::application::server::frame::{Error, Frame};
fn decode(s: &[u8]) -> Result<(Frame, usize), String> {
    let b = BytesMut::from(s);
    let mut c = Cursor::new(&b);
    match Frame::check(&mut c) {
        Err(Error::Incomplete) => Err("incomplete".into()),
        Err(_) => Err("bad".into()),
        Ok(_) => {
            let n = c.position() as usize;
            let mut c = Cursor::new(Bytes::copy_from_slice(&s[..n]));
            Frame::parse(&mut c).map(|f| (f, n)).map_err(|e| match e { Error::Incomplete => "incomplete".into(), _ => "bad".into() })
        }
    }
}

fn main() {
    let got = decode(b"$-1\r\n");
    check(got == Ok((Frame::Null, 5)), &format!("null: {:?}", got));
    let got = decode(b"$-2\r\n");
    check(got == Err("bad".into()), &format!("malformed null: {:?}", got));
}
'''
