ID="c12-tag"; PROPERTY="C12"
NEEDS="a key of more than 255 bytes"
BREAKS="only the first 255 bytes of a key count for its slot"
EDITS=[("application/server/cmd/get.rs","""        Some(crc_hash(self.key.as_bytes()))
""","""        // A fixed bound keeps the cost of routing constant.
        let key = self.key.as_bytes();
        Some(crc_hash(&key[..key.len().min(255)]))
""")]
DEMO=r'''mod common;
use common::*;
use bytes::Bytes;
use roster::application::server::frame::Frame;
use roster::application::server::verif::{Command, CommandExecution};
use roster::infrastructure::hash::crc_hash;
fn main() {
    for n in [0usize, 1, 100, 255, 256, 300, 4000] {
        let k: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let f = Frame::Array(vec![Frame::Bulk(Bytes::from("GET")), Frame::Bulk(Bytes::from(k.clone()))]);
        let h = Command::from_frame(f).unwrap().hash_key();
        check(h == Some(crc_hash(&k)), &format!("slot of a key of {} bytes: {:?}", n, h));
    }
}
'''
