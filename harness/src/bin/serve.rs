//! The server, as started by `roster`.
use roster::ServerConfigBuilder;
use std::sync::atomic::AtomicU16;
use std::sync::Arc;
fn main() {
    let addr: std::net::SocketAddr = std::env::args().nth(1).unwrap().parse().unwrap();
    let server = ServerConfigBuilder::default()
        .connections_limit(Arc::new(AtomicU16::new(1000)))
        .bind_addr(addr)
        .build()
        .unwrap()
        .initialize();
    println!("READY");
    // the run that started this server is over: so is the server
    std::thread::spawn(|| {
        let _ = std::io::copy(&mut std::io::stdin(), &mut std::io::sink());
        std::process::exit(0)
    });
    server.join();
}
