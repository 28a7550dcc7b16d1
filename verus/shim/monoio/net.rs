//! `monoio::net`
use vstd::prelude::*;
use crate::shim::std::net::SocketAddr;
use crate::shim::World;
use crate::spec::world::Incoming;
use super::io::{OwnedReadHalf, OwnedWriteHalf};
verus! {
#[verifier::external_body]
pub struct TcpStream { s: () }
impl TcpStream {
    /// which connection it is
    pub uninterp spec fn conn(&self) -> int;
    /// the bytes the other side sends until the end of the stream
    pub uninterp spec fn inbound(&self) -> Seq<u8>;
    /// the stream ends with an error, instead of being closed by the other side
    pub uninterp spec fn faulty(&self) -> bool;
    /// it broke off before it could be served: an operation on it failed
    pub uninterp spec fn gone(&self) -> bool;
    /// the addresses of its two sides, its descriptor
    pub uninterp spec fn peer(&self) -> Seq<u8>;
    pub uninterp spec fn local(&self) -> Seq<u8>;
    pub uninterp spec fn descriptor(&self) -> Seq<u8>;
    pub open spec fn incoming(&self) -> Incoming {
        Incoming { conn: self.conn(), addr: self.peer(), laddr: self.local(), fd: self.descriptor(), gone: self.gone() }
    }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: crate::shim::std::io::Result<SocketAddr>)
        ensures r is Ok ==> r->Ok_0.text() == self.local(), r is Err ==> self.gone()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_addr(&self) -> (r: crate::shim::std::io::Result<SocketAddr>)
        ensures r is Ok ==> r->Ok_0.text() == self.peer(), r is Err ==> self.gone()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nodelay(&self, x: bool) -> (r: crate::shim::std::io::Result<()>)
        ensures r is Err ==> self.gone()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_split(self) -> (r: (OwnedReadHalf<TcpStream>, OwnedWriteHalf<TcpStream>))
        ensures
            r.0.conn() == self.conn(), r.1.conn() == self.conn(),
            r.0.inbound() == self.inbound(), r.0.faulty() == self.faulty(),
    { unimplemented!() }
}
pub struct ListenerConfig { pub x: () }
impl ListenerConfig {
    #[verifier::external_body]
    pub fn new() -> ListenerConfig { unimplemented!() }
    #[verifier::external_body]
    pub fn backlog(self, n: i32) -> ListenerConfig { unimplemented!() }
    #[verifier::external_body]
    pub fn reuse_port(self, b: bool) -> ListenerConfig { unimplemented!() }
    #[verifier::external_body]
    pub fn reuse_addr(self, b: bool) -> ListenerConfig { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpListener { s: () }
impl TcpListener {
    #[verifier::external_body]
    pub fn bind_with_config(a: SocketAddr, c: &ListenerConfig) -> crate::shim::std::io::Result<TcpListener> { unimplemented!() }
    #[verifier::external_body]
    pub fn accept(&self, w: &mut World) -> (r: crate::shim::std::io::Result<(TcpStream, SocketAddr)>)
        ensures
            final(w).log == old(w).log, final(w).cells == old(w).cells,
            r is Ok ==> final(w).incoming@ == old(w).incoming@.push(r->Ok_0.0.incoming()) && r->Ok_0.1.text() == r->Ok_0.0.peer(),
            r is Err ==> final(w).incoming == old(w).incoming,
    { unimplemented!() }
}
} // verus!
