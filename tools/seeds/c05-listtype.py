ID='c05-listtype'; PROPERTY='C05'
NEEDS='CLIENT LIST TYPE with an argument that is not a text'
BREAKS='it is answered as CLIENT LIST TYPE normal instead of being rejected'
EDITS=[('application/server/cmd/client/list.rs', '                        Err(err) => {\n                            bail!("{}", err);\n                        }\n                    };', '                        Err(_) => ClientType::Normal,\n                    };')]
DEMO=r'''mod common;
use common::*;
fn main() {
    let a = server();
    for t in [&b"normal"[..], b"bogus", b"\xff"] {
        let mut c = Client::new(a);
        let r = c.call(&[b"CLIENT", b"LIST", b"TYPE", t]);
        check(r.starts_with(b"*") == (t == b"normal"), &format!("CLIENT LIST TYPE {}: {}", show(t), show(&r)));
    }
}
'''
