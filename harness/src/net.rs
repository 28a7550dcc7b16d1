//! The server as a process of its own, and clients of it.
use crate::*;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// How long a reply may take before it counts as missing.
pub const PATIENCE: Duration = Duration::from_secs(20);

static ENDING: Mutex<()> = Mutex::new(());
static SERVERS: Mutex<Vec<Child>> = Mutex::new(Vec::new());

/// Stop the servers, report, and end the run.
pub fn bad(prop: &str, what: &str) -> ! {
    // the first failure is the one reported
    std::mem::forget(ENDING.lock());
    let died = dead();
    kill_all();
    let what = if died { format!("{} (the server stopped)", what) } else { what.to_string() };
    fail(prop, &what)
}
pub fn kill_all() {
    if let Ok(mut s) = SERVERS.lock() {
        for c in s.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        s.clear();
    }
}
/// One of the servers is not running any more.
pub fn dead() -> bool {
    SERVERS.lock().map(|mut s| s.iter_mut().any(|c| matches!(c.try_wait(), Ok(Some(_))))).unwrap_or(false)
}
pub fn done(n: u64) -> ! {
    kill_all();
    println!("DONE {}", n);
    std::process::exit(0)
}
/// The run could not be made: no verdict.
pub fn give_up(why: &str) -> ! {
    kill_all();
    println!("NOTE {}", why);
    std::process::exit(3)
}

/// Start the server; `nofile` limits its descriptors.
pub fn start(nofile: Option<u32>) -> SocketAddr {
    for _ in 0..5 {
        let addr = match TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()) {
            Ok(a) => a,
            Err(_) => continue,
        };
        let exe = std::env::current_exe().unwrap().with_file_name("serve");
        let mut c = match nofile {
            None => Command::new(exe),
            Some(n) => {
                let mut c = Command::new("sh");
                c.arg("-c").arg(format!("ulimit -n {} || exit 9; exec \"$0\" \"$@\"", n)).arg(exe);
                c
            }
        };
        let mut c = match c.arg(addr.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => continue,
        };
        let out = c.stdout.take().unwrap();
        let mut l = String::new();
        let ok = BufReader::new(out).read_line(&mut l).is_ok() && l.starts_with("READY");
        if !ok {
            let _ = c.kill();
            let _ = c.wait();
            continue;
        }
        SERVERS.lock().unwrap().push(c);
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(20) {
            if TcpStream::connect(addr).is_ok() {
                // the other threads listen soon after the first
                std::thread::sleep(Duration::from_millis(300));
                return addr;
            }
            std::thread::sleep(Duration::from_millis(30));
        }
        kill_all();
    }
    give_up("the server did not start")
}

pub struct Client {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub prop: &'static str,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Got {
    V(V),
    /// the connection ended, with this left unread
    End(Vec<u8>),
}

pub fn req(args: &[&[u8]]) -> V {
    V::Array(args.iter().map(|a| V::Bulk(a.to_vec())).collect())
}

impl Client {
    pub fn new(a: SocketAddr, prop: &'static str) -> Client {
        let t = Instant::now();
        loop {
            match TcpStream::connect(a) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let _ = s.set_read_timeout(Some(PATIENCE));
                    let _ = s.set_write_timeout(Some(PATIENCE));
                    return Client { s, buf: vec![], prop };
                }
                Err(e) if t.elapsed() > PATIENCE => bad(prop, &format!("no connection is accepted: {}", e)),
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        }
    }
    /// A connection from 127.0.0.`host`, port `port`; `None` when that is not possible.
    pub fn bound(a: SocketAddr, host: u8, port: u16, prop: &'static str) -> Option<Client> {
        use std::os::fd::FromRawFd;
        extern "C" {
            fn socket(d: i32, t: i32, p: i32) -> i32;
            fn bind(fd: i32, a: *const u8, l: u32) -> i32;
            fn connect(fd: i32, a: *const u8, l: u32) -> i32;
        }
        let at = |h: u8, p: u16| {
            let mut b = [0u8; 16];
            b[..2].copy_from_slice(&2u16.to_ne_bytes());
            b[2..4].copy_from_slice(&p.to_be_bytes());
            b[4..8].copy_from_slice(&[127, 0, 0, h]);
            b
        };
        unsafe {
            let fd = socket(2, 1 | 0o2000000, 0);
            if fd < 0 { return None }
            let s = TcpStream::from_raw_fd(fd);
            if bind(fd, at(host, port).as_ptr(), 16) != 0 { return None }
            if connect(fd, at(1, a.port()).as_ptr(), 16) != 0 { return None }
            let _ = s.set_nodelay(true);
            let _ = s.set_read_timeout(Some(PATIENCE));
            let _ = s.set_write_timeout(Some(PATIENCE));
            Some(Client { s, buf: vec![], prop })
        }
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// The next reply. A stall is a failure.
    pub fn next(&mut self) -> Got {
        loop {
            if !self.buf.is_empty() {
                match scan(&self.buf, 0, 64) {
                    Some(Rd::At(n)) => {
                        let rest = self.buf.split_off(n);
                        let m = std::mem::replace(&mut self.buf, rest);
                        return match dec(&m, 0) {
                            Some((v, _)) => Got::V(v),
                            None => bad(self.prop, &format!("not a reply: {}", show(&m))),
                        };
                    }
                    Some(Rd::Inc) => (),
                    _ => bad(self.prop, &format!("not a reply: {}", show(&self.buf))),
                }
            }
            let mut b = [0u8; 65536];
            match self.s.read(&mut b) {
                Ok(0) => return Got::End(std::mem::take(&mut self.buf)),
                Ok(n) => self.buf.extend(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                    let at = NOW.with(|n| n.borrow().clone());
                    bad(self.prop, &format!("no reply after {:?}, with {} received: {}", PATIENCE, show(&self.buf), at))
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                Err(_) => return Got::End(std::mem::take(&mut self.buf)),
            }
        }
    }
    pub fn call(&mut self, v: &V) -> Got {
        let e = encoded(v);
        now(format!("after the request {}", show(&e)));
        self.send(&e);
        self.next()
    }
    pub fn cmd(&mut self, args: &[&[u8]]) -> Got {
        self.call(&req(args))
    }
    /// A command that has to be answered.
    pub fn ask(&mut self, args: &[&[u8]]) -> V {
        match self.cmd(args) {
            Got::V(v) => v,
            Got::End(_) => bad(self.prop, &format!("the connection ended instead of answering {:?}", args.iter().map(|a| show(a)).collect::<Vec<_>>())),
        }
    }
    /// No more data to come from us.
    pub fn half_close(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// End with a reset instead of a clean close.
    pub fn reset(self) {
        use std::os::fd::AsRawFd;
        extern "C" {
            fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
        }
        let l = [1i32, 0];
        unsafe { setsockopt(self.s.as_raw_fd(), 1, 13, l.as_ptr(), 8) };
    }
}
