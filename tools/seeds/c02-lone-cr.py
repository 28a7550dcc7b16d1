ID="c02-lone-cr"; PROPERTY="C02"
NEEDS="a simple string or an error whose text contains a carriage return that is not followed by a line feed"
BREAKS="the size check of a text stops at the first carriage return, so that the frame boundary lands in the middle of the text"
EDITS=[("application/server/frame/mod.rs","""fn get_line_mut_no_return(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
    // Scan the bytes directly
    let start = src.position() as usize;
    // Scan to the second to last byte
    let end = src.get_ref().len() - 1;

    for i in start..end {
        if src.get_ref()[i] == b'\\r' && src.get_ref()[i + 1] == b'\\n' {
""","""fn get_line_mut_no_return(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
    // Scan the bytes directly
    let start = src.position() as usize;
    // Scan to the second to last byte
    let end = src.get_ref().len() - 1;

    for i in start..end {
        if src.get_ref()[i] == b'\\r' {
""")]
DEMO=r'''mod common;
use common::*;
use std::io::Cursor;
use bytes::{Bytes, BytesMut};
use roster::application::server::frame::{Error, Frame};
fn decode(s: &[u8]) -> Result<(Frame, usize), String> {
    let b = BytesMut::from(s);
    let mut c = Cursor::new(&b);
    match Frame::check(&mut c) {
        Err(Error::Incomplete) => Err("incomplete".into()),
        Err(_) => Err("bad".into()),
        Ok(_) => {
            let n = c.position() as usize;
            let mut c = Cursor::new(Bytes::copy_from_slice(&s[..n]));
            Frame::parse(&mut c).map(|f| (f, n)).map_err(|e| match e { Error::Incomplete => "incomplete".into(), _ => "bad".into() })
        }
    }
}

fn main() {
    let s = b"*2\r\n+a\rb\r\n:7\r\n";
    let want = Frame::Array(vec![Frame::Simple("a\rb".into()), Frame::Integer(7)]);
    let got = decode(s);
    check(got == Ok((want, s.len())), &format!("an array of a text with a lone CR: {:?}", got));
}
'''
