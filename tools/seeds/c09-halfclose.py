ID='c09-halfclose'; PROPERTY='C09'
NEEDS='a client that pipelines requests and ends its side of the connection before the replies are written'
BREAKS='the replies not yet written when the client ends its side are dropped'
EDITS=[('application/server/handle.rs', '        let answer_in_order_handle = monoio::spawn(async move {\n            if let', '        let answer_in_order_handle = async move {\n            if let'), ('application/server/handle.rs', '            Ok::<_, anyhow::Error>(())\n        });\n\n        monoio::select! {\n            r = accepting_frames_handle', '            Ok::<_, anyhow::Error>(())\n        };\n\n        monoio::select! {\n            r = accepting_frames_handle')]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for n in [1usize, 50, 3000] {
        let mut c = Client::new(a);
        let mut s = vec![];
        for i in 0..n { s.extend(Client::req(&[b"PING", format!("{}", i).as_bytes()])) }
        c.send(&s);
        c.s.shutdown(std::net::Shutdown::Write).unwrap();
        let mut k = 0;
        for i in 0..n {
            let t = format!("{}", i);
            if c.reply() != format!("${}\r\n{}\r\n", t.len(), t).into_bytes() { break }
            k += 1;
        }
        check(k == n, &format!("{} of {} requests are answered", k, n));
    }
}
'''
