//! What a request means, and what its reply has to be, from the documentation of the commands.
use crate::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    No,
    Secs(u64),
    Millis(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Ping(Option<Vec<u8>>),
    Set(Vec<u8>, Vec<u8>, Exp),
    Get(Vec<u8>),
    Hello,
    AclCat,
    Help,
    SetInfo,
    Info,
    SetName(Vec<u8>),
    GetName,
    List,
    Id,
    Unknown(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Run(Cmd),
    Reject,
    /// not settled by the property
    Unsettled,
}
use Want::*;

fn text(v: &V) -> Option<Vec<u8>> {
    match v {
        V::Simple(s) => Some(s.clone()),
        V::Bulk(b) if std::str::from_utf8(b).is_ok() => Some(b.clone()),
        _ => None,
    }
}
fn bytes(v: &V) -> Option<Vec<u8>> {
    match v {
        V::Simple(s) | V::Bulk(s) => Some(s.clone()),
        _ => None,
    }
}
/// `Ok(None)`: whether this is a number is not settled (leading zero, sign).
fn int(v: &V) -> Result<Option<u64>, ()> {
    match v {
        V::Int(n) => Ok(Some(*n)),
        V::Simple(s) | V::Bulk(s) => {
            if !s.is_empty() && s.iter().all(|b| b.is_ascii_digit()) {
                if s.len() > 1 && s[0] == b'0' { return Ok(None) }
                return std::str::from_utf8(s).unwrap().parse().map(Some).map_err(|_| ());
            }
            if s.first() == Some(&b'+') { return Ok(None) }
            Err(())
        }
        _ => Err(()),
    }
}
fn low(b: &[u8]) -> Vec<u8> {
    std::str::from_utf8(b).unwrap().to_lowercase().into_bytes()
}

/// What a request spells.
pub fn want(v: &V) -> Want {
    let a = match v { V::Array(a) => a, _ => return Reject };
    let name = match a.first().and_then(text) { Some(n) => low(&n), None => return Reject };
    let r = &a[1..];
    let none = |c: Cmd, r: &[V]| if r.is_empty() { Run(c) } else { Reject };
    match &name[..] {
        b"ping" => match r.len() {
            0 => Run(Cmd::Ping(None)),
            1 => bytes(&r[0]).map(|b| Run(Cmd::Ping(Some(b)))).unwrap_or(Reject),
            _ => Reject,
        },
        b"get" => match r { [k] => text(k).map(|k| Run(Cmd::Get(k))).unwrap_or(Reject), _ => Reject },
        b"set" => {
            if r.len() < 2 { return Reject }
            let (k, b) = match (text(&r[0]), bytes(&r[1])) { (Some(k), Some(b)) => (k, b), _ => return Reject };
            match r.len() {
                2 => Run(Cmd::Set(k, b, Exp::No)),
                4 => {
                    let o = match text(&r[2]) { Some(o) => low(&o), None => return Reject };
                    if o != b"ex" && o != b"px" { return Reject }
                    match int(&r[3]) {
                        Err(()) => Reject,
                        Ok(None) => Unsettled,
                        Ok(Some(n)) => Run(Cmd::Set(k, b, if o == b"ex" { Exp::Secs(n) } else { Exp::Millis(n) })),
                    }
                }
                _ => Reject,
            }
        }
        b"hello" => none(Cmd::Hello, r),
        b"acl" => match r.first().map(text) {
            Some(Some(s)) => match &low(&s)[..] {
                b"cat" => match &r[1..] {
                    [] => Run(Cmd::AclCat),
                    [c] => if text(c).is_some() { Run(Cmd::AclCat) } else { Reject },
                    _ => Reject,
                },
                s => Run(Cmd::Unknown(s.to_vec())),
            },
            _ => Reject,
        },
        b"client" => {
            if r.is_empty() { return Run(Cmd::Help) }
            let s = match text(&r[0]) { Some(s) => low(&s), None => return Reject };
            let r = &r[1..];
            match &s[..] {
                b"help" => none(Cmd::Help, r),
                b"info" => none(Cmd::Info, r),
                b"id" => none(Cmd::Id, r),
                b"getname" => none(Cmd::GetName, r),
                b"setname" => match r { [n] => text(n).map(|n| Run(Cmd::SetName(n))).unwrap_or(Reject), _ => Reject },
                b"setinfo" => if r.len() <= 2 && r.iter().all(|x| bytes(x).is_some()) { Run(Cmd::SetInfo) } else { Reject },
                b"list" => list(r),
                s => Run(Cmd::Unknown(s.to_vec())),
            }
        }
        n => Run(Cmd::Unknown(n.to_vec())),
    }
}
fn list(mut r: &[V]) -> Want {
    while let Some(f) = r.first() {
        let f = match text(f) { Some(f) => low(&f), None => return Reject };
        r = &r[1..];
        match &f[..] {
            b"type" => {
                let Some(t) = r.first() else { return Run(Cmd::List) };
                r = &r[1..];
                match text(t).map(|t| low(&t)).as_deref() {
                    Some(b"normal" | b"replica" | b"master" | b"pubsub") => (),
                    _ => return Reject,
                }
            }
            b"id" => {
                let mut odd = false;
                for n in r {
                    match int(n) { Err(()) => return Reject, Ok(None) => odd = true, _ => () }
                }
                return if odd { Unsettled } else { Run(Cmd::List) };
            }
            _ => return Reject,
        }
    }
    Run(Cmd::List)
}

/// A name the server accepts.
pub fn name_ok(n: &[u8]) -> bool {
    n.iter().all(|b| (33..=126).contains(b))
}

/// What the server holds, as far as the replies tell.
#[derive(Default)]
pub struct World {
    pub db: HashMap<Vec<u8>, Vec<u8>>,
    pub conns: Vec<Conn>,
}
#[derive(Clone, Default, Debug)]
pub struct Conn {
    pub id: Option<u64>,
    pub name: Vec<u8>,
    pub addr: String,
    pub laddr: String,
    pub live: bool,
    pub half: bool,
}

/// The fields of a description, when it has the documented form.
pub fn fields(s: &[u8]) -> Option<Vec<(String, String)>> {
    let s = std::str::from_utf8(s).ok()?;
    s.split(' ').map(|f| f.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
}
pub fn field<'a>(f: &'a [(String, String)], k: &str) -> Option<&'a str> {
    let mut it = f.iter().filter(|(a, _)| a == k);
    let r = it.next()?;
    if it.next().is_some() { return None }
    Some(&r.1)
}
fn described(s: &[u8], c: &Conn) -> Result<u64, String> {
    let f = fields(s).ok_or_else(|| format!("not a description: {}", show(s)))?;
    let id = field(&f, "id").and_then(|x| x.parse::<u64>().ok()).ok_or_else(|| format!("no id in {}", show(s)))?;
    if let Some(i) = c.id { if i != id { return Err(format!("id {} instead of {} in {}", id, i, show(s))) } }
    for (k, w) in [("addr", &c.addr), ("laddr", &c.laddr)] {
        if field(&f, k) != Some(&w[..]) { return Err(format!("{} is not {} in {}", k, w, show(s))) }
    }
    let n = String::from_utf8_lossy(&c.name).to_string();
    if field(&f, "name") != Some(&n[..]) { return Err(format!("the name is not {:?} in {}", n, show(s))) }
    if field(&f, "fd").and_then(|x| x.parse::<i32>().ok()).is_none() { return Err(format!("no fd in {}", show(s))) }
    Ok(id)
}

impl World {
    /// Run a command for connection `c`, and compare its reply.
    pub fn step(&mut self, c: usize, cmd: &Cmd, got: &V) -> Result<(), String> {
        let eq = |w: V| if *got == w { Ok(()) } else { Err(format!("the reply is {} instead of {}", show(&encoded(got)), show(&encoded(&w)))) };
        let err = || match got { V::Error(_) => Ok(()), _ => Err(format!("the reply is {} instead of an error", show(&encoded(got)))) };
        match cmd {
            Cmd::Ping(None) => eq(V::Simple(b"PONG".to_vec())),
            Cmd::Ping(Some(b)) => eq(V::Bulk(b.clone())),
            Cmd::Set(k, v, _) => {
                self.db.insert(k.clone(), v.clone());
                eq(V::Simple(b"OK".to_vec()))
            }
            Cmd::Get(k) => eq(self.db.get(k).map(|v| V::Bulk(v.clone())).unwrap_or(V::Null)),
            Cmd::Hello => {
                let m = match got { V::Map(m) => m, _ => return Err(format!("the reply is {} instead of a map", show(&encoded(got)))) };
                let at = |k: &str| m.iter().filter(|(a, _)| *a == V::Bulk(k.as_bytes().to_vec())).map(|(_, v)| v.clone()).collect::<Vec<_>>();
                for (k, w) in [("server", "roster"), ("mode", "standalone"), ("role", "undefined")] {
                    if at(k) != [V::Bulk(w.as_bytes().to_vec())] { return Err(format!("HELLO: {} is {:?}", k, at(k))) }
                }
                if at("proto") != [V::Int(3)] { return Err(format!("HELLO: proto is {:?}", at("proto"))) }
                if at("modules") != [V::Array(vec![])] { return Err(format!("HELLO: modules is {:?}", at("modules"))) }
                if !matches!(&at("version")[..], [V::Bulk(b)] if !b.is_empty()) { return Err(format!("HELLO: version is {:?}", at("version"))) }
                match &at("id")[..] {
                    [V::Int(n)] => self.id(c, *n),
                    x => Err(format!("HELLO: id is {:?}", x)),
                }
            }
            Cmd::AclCat => err(),
            Cmd::Unknown(n) => match got {
                V::Error(e) => {
                    let n: Vec<u8> = n.iter().map(|b| if *b == 13 || *b == 10 { 32 } else { *b }).collect();
                    if n.is_empty() || e.windows(n.len()).any(|w| w == &n[..]) { Ok(()) }
                    else { Err(format!("the error {} does not name the command {}", show(e), show(&n))) }
                }
                _ => err(),
            },
            Cmd::Help => {
                let a = match got { V::Array(a) => a, _ => return Err(format!("the reply is {} instead of the help", show(&encoded(got)))) };
                let mut l = vec![];
                for x in a {
                    match x { V::Simple(s) => l.push(String::from_utf8_lossy(s).to_string()), _ => return Err(format!("a line of the help is {:?}", x)) }
                }
                if !l.first().map(|s| s.starts_with("CLIENT <subcommand>")).unwrap_or(false) { return Err(format!("the help starts with {:?}", l.first())) }
                if l.iter().any(|s| s.trim().is_empty()) { return Err(format!("a line of the help is empty: {:?}", l)) }
                for k in ["GETNAME", "ID", "INFO", "LIST", "SETNAME", "SETINFO", "HELP"] {
                    if l.iter().filter(|s| s.split(' ').next() == Some(k)).count() != 1 { return Err(format!("the help does not describe {} once: {:?}", k, l)) }
                }
                Ok(())
            }
            Cmd::SetInfo => eq(V::Simple(b"OK".to_vec())),
            Cmd::SetName(n) => {
                if name_ok(n) {
                    self.conns[c].name = n.clone();
                    eq(V::Simple(b"OK".to_vec()))
                } else { err() }
            }
            Cmd::GetName => {
                let n = self.conns[c].name.clone();
                eq(if n.is_empty() { V::Null } else { V::Bulk(n) })
            }
            Cmd::Id => match got { V::Int(n) => self.id(c, *n), _ => Err(format!("the reply is {} instead of an id", show(&encoded(got)))) },
            Cmd::Info => match got {
                V::Simple(s) => { let n = described(s, &self.conns[c])?; self.id(c, n) }
                _ => Err(format!("the reply is {} instead of a description", show(&encoded(got)))),
            },
            Cmd::List => {
                let a = match got { V::Array(a) => a, _ => return Err(format!("the reply is {} instead of a list", show(&encoded(got)))) };
                for (i, k) in self.conns.clone().iter().enumerate() {
                    if !k.live { continue }
                    let mut n = 0;
                    for x in a {
                        let s = match x { V::Simple(s) => s, _ => return Err(format!("a description is {}", show(&encoded(x)))) };
                        let f = fields(s).ok_or_else(|| format!("not a description: {}", show(s)))?;
                        // by its id; the address of a connection can be that of one that has just ended
                        let mine = match k.id {
                            Some(d) => field(&f, "id") == Some(&d.to_string()[..]),
                            None => n == 0 && field(&f, "addr") == Some(&k.addr[..]) && described(s, k).is_ok(),
                        };
                        if mine {
                            let d = described(s, k)?;
                            self.id(i, d)?;
                            n += 1;
                        }
                    }
                    if n != 1 { return Err(format!("the connection from {} is described {} times in {}", k.addr, n, show(&encoded(got)))) }
                }
                Ok(())
            }
        }
    }
    fn id(&mut self, c: usize, n: u64) -> Result<(), String> {
        if let Some((j, _)) = self.conns.iter().enumerate().find(|(j, k)| *j != c && k.id == Some(n)) {
            return Err(format!("id {} is the one of connection {} too", n, j));
        }
        match self.conns[c].id {
            Some(m) if m != n => Err(format!("the id is {} and was {}", n, m)),
            _ => { self.conns[c].id = Some(n); Ok(()) }
        }
    }
}

fn case(r: &mut Rng, s: &str) -> Vec<u8> {
    match r.below(4) {
        0 => s.to_lowercase().into_bytes(),
        1 => s.to_uppercase().into_bytes(),
        _ => s.bytes().map(|b| if r.below(2) == 0 { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect(),
    }
}
fn word(r: &mut Rng, s: &str) -> V {
    let w = case(r, s);
    if r.below(6) == 0 { V::Simple(w) } else { V::Bulk(w) }
}
pub fn key(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => b"".to_vec(),
        1 => "cl\u{e9} \u{1F511}".as_bytes().to_vec(),
        2 => b"a\r\nb".to_vec(),
        3 => vec![b'k'; 1 + size(r, 3000) as usize],
        4 => wide(r, 5000),
        _ => format!("k{}", r.below(6)).into_bytes(),
    }
}
pub fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(13) {
        0 => b"".to_vec(),
        1 => b"with space".to_vec(),
        2 => b"line\nbreak".to_vec(),
        3 => b"x id=7 name=root".to_vec(),
        4 => "n\u{e9}".as_bytes().to_vec(),
        5 => vec![b'n', r.below(32) as u8],
        6 => vec![127],
        7 => vec![b' '],
        8 => vec![b'!', b'~', b'='],
        9 => vec![b'z'; 1 + size(r, 5000) as usize],
        10 => {
            // one character that is not accepted, anywhere in a name of any length
            let mut n: Vec<u8> = vec![b'a' + r.below(26) as u8; 1 + size(r, 600) as usize];
            let i = match r.below(3) { 0 => n.len() - 1, _ => r.below(n.len() as u64) as usize };
            n[i] = *r.pick(&[b' ', b'\n', b'\r', b'\t', 0, 127, 31, 11]);
            n
        }
        _ => (0..1 + r.below(12)).map(|_| 33 + r.below(94) as u8).collect(),
    }
}
fn num(r: &mut Rng) -> V {
    let n = if r.below(2) == 0 { 1_000_000 + r.below(1 << 31) } else { u64::MAX - r.below(1 << 40) };
    match r.below(4) {
        0 => V::Int(n),
        1 => V::Simple(n.to_string().into_bytes()),
        _ => V::Bulk(n.to_string().into_bytes()),
    }
}
fn bad_num(r: &mut Rng) -> V {
    let s: &[&[u8]] = &[b"", b"-1", b"abc", b"12x", b"1 ", b" 1", b"18446744073709551616", b"99999999999999999999999", b"1.5", b"1e3", b"\xff"];
    V::Bulk(r.pick(s).to_vec())
}
/// A word close to the one that was there.
fn near(r: &mut Rng, v: &mut V) {
    if let V::Simple(s) | V::Bulk(s) = v {
        if s.len() > 200 || s.iter().any(|b| *b >= 128) { return }
        let at = r.below(s.len() as u64 + 1) as usize;
        let c = *r.pick(b"xXATat1 -_\x00\r\n\t\x0b\x0c.s");
        match r.below(8) {
            0 | 1 => s.push(c),
            2 => { s.pop(); }
            3 => s.insert(0, c),
            4 => s.insert(at, c),
            5 => if at < s.len() { s[at] = c },
            6 => if at < s.len() { s[at] ^= 0x20 },
            _ => { let mut t = s.clone(); if r.below(2) == 0 { t.reverse() } else { t.extend(s.clone()) } *s = t }
        }
    }
}
/// A request the documentation gives a meaning to, or close to one.
pub fn request(r: &mut Rng) -> V {
    let mut a = match r.below(20) {
        0 => vec![word(r, "PING")],
        1 => vec![word(r, "PING"), V::Bulk(blob(r, 3000))],
        2 | 3 | 4 => { let m = if r.below(10) == 0 { 70000 } else { 9000 }; vec![word(r, "SET"), V::Bulk(key(r)), V::Bulk(blob(r, m))] }
        5 => {
            let o = if r.below(2) == 0 { "EX" } else { "PX" };
            let o = if r.below(12) == 0 { *r.pick(&["NX", "XX", "GET", "KEEPTTL", "EXAT", "PXAT", "EXX", "PXX", "E", "P", "X", "EXPX"]) } else { o };
            vec![word(r, "SET"), V::Bulk(key(r)), V::Bulk(blob(r, 200)), word(r, o), num(r)]
        }
        6 | 7 | 8 => vec![word(r, "GET"), V::Bulk(key(r))],
        9 => vec![word(r, "HELLO")],
        10 => match r.below(3) {
            0 => vec![word(r, "ACL"), word(r, "CAT")],
            1 => vec![word(r, "ACL"), word(r, "CAT"), word(r, "read")],
            _ => vec![word(r, "ACL"), word(r, "WHOAMI")],
        },
        11 => vec![word(r, "CLIENT"), word(r, "ID")],
        12 | 13 => vec![word(r, "CLIENT"), word(r, "SETNAME"), V::Bulk(name(r))],
        14 => vec![word(r, "CLIENT"), word(r, "GETNAME")],
        15 => vec![word(r, "CLIENT"), word(r, "INFO")],
        16 => {
            let mut v = vec![word(r, "CLIENT"), word(r, "LIST")];
            if r.below(3) == 0 { v.push(word(r, "TYPE")); let t = *r.pick(&["normal", "master", "replica", "pubsub"]); v.push(word(r, t)); }
            if r.below(3) == 0 { v.push(word(r, "ID")); for _ in 0..r.below(4) { v.push(num(r)) } }
            v
        }
        17 => {
            let mut v = vec![word(r, "CLIENT"), word(r, "SETINFO")];
            let k = *r.pick(&["LIB-NAME", "LIB-VER", "OTHER"]);
            if r.below(5) > 0 { v.push(V::Bulk(k.as_bytes().to_vec())); if r.below(5) > 0 { v.push(V::Bulk(blob(r, 50))) } }
            v
        }
        18 => if r.below(2) == 0 { vec![word(r, "CLIENT")] } else { vec![word(r, "CLIENT"), word(r, "HELP")] },
        _ => {
            let w = *r.pick(&["FLUSHALL", "GETX", "se", "setx", "ping ", " get", "CONFIG", "k\u{1F511}", "x\r\n+OK", ""]);
            match r.below(3) { 0 => vec![word(r, "CLIENT"), word(r, w)], 1 => vec![word(r, w), V::Int(3)], _ => vec![if r.below(3) == 0 { V::Bulk(wide(r, 3000)) } else { word(r, w) }] }
        }
    };
    // and damage to it
    if r.below(5) == 0 {
        let i = r.below(a.len() as u64) as usize;
        match r.below(9) {
            0 => { a.remove(i); }
            7 | 8 => near(r, &mut a[i]),
            1 => { let x = a[i].clone(); a.insert(i, x) }
            2 => a.push(value(r, 1, 20)),
            3 => a[i] = value(r, 1, 20),
            4 => a[i] = bad_num(r),
            5 => a[i] = V::Bulk(vec![b'a', 0xff, b'b']),
            _ => { let j = r.below(a.len() as u64) as usize; a.swap(i, j) }
        }
    }
    if r.below(60) == 0 { return value(r, 1, 30) }
    V::Array(a)
}
/// `want`, with what is left out of the comparison: letters whose case is not the one of ASCII.
pub fn settled(v: &V) -> Want {
    if let V::Array(a) = v {
        for x in a.iter().take(2) {
            if let Some(t) = text(x) {
                let s = String::from_utf8(t).unwrap();
                if s.to_lowercase() != s.to_ascii_lowercase() { return Unsettled }
            }
        }
    }
    match want(v) {
        // it could expire during the test
        Run(Cmd::Set(_, _, Exp::Secs(n))) if n < 600 => Unsettled,
        Run(Cmd::Set(_, _, Exp::Millis(n))) if n < 600_000 => Unsettled,
        w => w,
    }
}
