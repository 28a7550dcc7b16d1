//! `std::net`
use vstd::prelude::*;
verus! {
/// An address, and how it is displayed.
#[verifier::external_body]
pub struct SocketAddr { x: () }
impl SocketAddr { pub uninterp spec fn text(&self) -> Seq<u8>; }
impl crate::shim::text::Shown for SocketAddr {
    open spec fn shown(&self) -> Seq<u8> { self.text() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_address(a: SocketAddr)
    ensures crate::spec::world::graphic(#[trigger] a.text())
{ }
impl Clone for SocketAddr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for SocketAddr {}
#[verifier::external_body]
pub struct IpAddr { x: () }
impl Clone for IpAddr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for IpAddr {}
impl IpAddr {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    pub uninterp spec fn four_(&self) -> bool;
    pub uninterp spec fn loopback_(&self) -> bool;
    pub uninterp spec fn unspecified_(&self) -> bool;
    #[verifier::external_body]
    pub fn is_ipv4(&self) -> (r: bool) ensures r == self.four_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ipv6(&self) -> (r: bool) ensures r == !self.four_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_loopback(&self) -> (r: bool) ensures r == self.loopback_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unspecified(&self) -> (r: bool) ensures r == self.unspecified_() { unimplemented!() }
}
impl crate::shim::text::Shown for IpAddr {
    open spec fn shown(&self) -> Seq<u8> { self.text() }
}
impl PartialEq for IpAddr {
    #[verifier::external_body]
    fn eq(&self, o: &IpAddr) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for IpAddr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &IpAddr) -> bool { *self == *o }
}
impl SocketAddr {
    pub uninterp spec fn ip_(&self) -> IpAddr;
    pub uninterp spec fn port_(&self) -> u16;
    #[verifier::external_body]
    pub fn ip(&self) -> (r: IpAddr) ensures r == self.ip_() { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: u16) ensures r == self.port_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ipv4(&self) -> (r: bool) ensures r == self.ip_().four_() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ipv6(&self) -> (r: bool) ensures r == !self.ip_().four_() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_port(&mut self, p: u16) ensures final(self).port_() == p, final(self).ip_() == old(self).ip_() { unimplemented!() }
}
impl PartialEq for SocketAddr {
    #[verifier::external_body]
    fn eq(&self, o: &SocketAddr) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SocketAddr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SocketAddr) -> bool { *self == *o }
}
} // verus!
