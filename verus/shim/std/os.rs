//! `std::os`
pub mod fd {
    use vstd::prelude::*;
    use crate::shim::text::Shown;
    use crate::shim::monoio::net::TcpStream;
    verus! {
    pub trait IntoRawFd: Sized { fn into_raw_fd(self) -> i32; }
    pub trait AsRawFd: Sized { spec fn fd_text(&self) -> Seq<u8>; fn as_raw_fd(&self) -> (r: i32) ensures r.shown() == self.fd_text(); }
    impl IntoRawFd for TcpStream { #[verifier::external_body] fn into_raw_fd(self) -> i32 { unimplemented!() } }
    impl AsRawFd for TcpStream { open spec fn fd_text(&self) -> Seq<u8> { self.descriptor() } #[verifier::external_body] fn as_raw_fd(&self) -> i32 { unimplemented!() } }
    }
}
