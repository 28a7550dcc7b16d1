#![allow(dead_code)]
//! A server in this process, and clients of it.
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::{Duration, Instant};

pub fn check(ok: bool, what: &str) {
    println!("demo: {} {}", if ok { "ok " } else { "BAD" }, what);
    if !ok {
        std::process::exit(1)
    }
}

/// Start the server on a free port.
pub fn server() -> SocketAddr {
    let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    std::thread::spawn(move || {
        roster::ServerConfigBuilder::default()
            .connections_limit(std::sync::Arc::new(std::sync::atomic::AtomicU16::new(1000)))
            .bind_addr(addr)
            .build()
            .unwrap()
            .initialize()
            .join()
    });
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        if TcpStream::connect(addr).is_ok() {
            std::thread::sleep(Duration::from_millis(300));
            return addr;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    println!("demo: the server did not start");
    std::process::exit(3)
}

pub struct Client {
    pub s: TcpStream,
    buf: Vec<u8>,
}
impl Client {
    pub fn new(a: SocketAddr) -> Client {
        let s = TcpStream::connect(a).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        s.set_nodelay(true).unwrap();
        Client { s, buf: vec![] }
    }
    pub fn send(&mut self, b: &[u8]) {
        let _ = self.s.write_all(b);
    }
    pub fn req(args: &[&[u8]]) -> Vec<u8> {
        let mut o = format!("*{}\r\n", args.len()).into_bytes();
        for a in args {
            o.extend(format!("${}\r\n", a.len()).into_bytes());
            o.extend(*a);
            o.extend(b"\r\n");
        }
        o
    }
    /// Send a request and read its reply.
    pub fn call(&mut self, args: &[&[u8]]) -> Vec<u8> {
        let r = Client::req(args);
        self.send(&r);
        self.reply()
    }
    fn fill(&mut self) -> bool {
        let mut b = [0u8; 65536];
        match self.s.read(&mut b) {
            Ok(n) if n > 0 => {
                self.buf.extend(&b[..n]);
                true
            }
            _ => false,
        }
    }
    fn end(b: &[u8], at: usize) -> Option<usize> {
        let e = at + b[at..].windows(2).position(|w| w == b"\r\n")?;
        let n = || std::str::from_utf8(&b[at + 1..e]).ok()?.parse::<i64>().ok();
        match b[at] {
            b'$' => {
                let n = n()?;
                if n < 0 {
                    return Some(e + 2);
                }
                let z = e + 2 + n as usize + 2;
                if z <= b.len() { Some(z) } else { None }
            }
            b'*' | b'%' => {
                let k = n()? * if b[at] == b'%' { 2 } else { 1 };
                let mut p = e + 2;
                for _ in 0..k {
                    if p >= b.len() {
                        return None;
                    }
                    p = Client::end(b, p)?;
                }
                Some(p)
            }
            _ => Some(e + 2),
        }
    }
    /// The bytes of the next reply; what there is when the connection ends or stalls.
    pub fn reply(&mut self) -> Vec<u8> {
        loop {
            if !self.buf.is_empty() {
                if let Some(e) = Client::end(&self.buf, 0) {
                    let rest = self.buf.split_off(e);
                    return std::mem::replace(&mut self.buf, rest);
                }
            }
            if !self.fill() {
                return std::mem::take(&mut self.buf);
            }
        }
    }
}
pub fn show(b: &[u8]) -> String {
    b.iter().take(200).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect()
}
