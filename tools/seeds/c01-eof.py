ID="c01-eof"; PROPERTY="C01"
NEEDS="a client whose stream ends inside a request, when what is left is no more than a length line"
BREAKS="a stream that ends inside a request is reported as a clean end of the connection"
EDITS=[("application/server/connection.rs","""                if self.buffer.is_empty() {
                    return Ok(None);""","""                // A dangling header is not worth an error.
                if self.buffer.len() <= 4 {
                    return Ok(None);""")]
DEMO=r'''mod common;
use common::*;
use roster::application::server::verif::WriteConnection;
use std::io::Write;
fn main() {
    let mut rt = monoio::RuntimeBuilder::<monoio::IoUringDriver>::new().build().unwrap();
    rt.block_on(async {
        let l = monoio::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        let whole = b"*1\r\n$4\r\nPING\r\n";
        for n in 0..=whole.len() {
            let mut c = std::net::TcpStream::connect(a).unwrap();
            c.write_all(&whole[..n]).unwrap();
            drop(c);
            let (s, _) = l.accept().await.unwrap();
            let (_w, mut r) = WriteConnection::new(s, 4096);
            let got = match r.read_frame().await { Ok(Some(_)) => "request", Ok(None) => "clean end", Err(_) => "error" };
            let want = if n == 0 { "clean end" } else if n == whole.len() { "request" } else { "error" };
            check(got == want, &format!("{} bytes of a request: {}", n, got));
        }
    });
}
'''
