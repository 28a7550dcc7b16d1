//! `crc`
use vstd::prelude::*;
use crate::spec::slot::*;
verus! {
/// An algorithm of the catalogue.
pub struct Algorithm { pub poly: u16, pub init: u16, pub refin: bool, pub refout: bool, pub xorout: u16 }
pub const CRC_16_XMODEM: Algorithm = Algorithm { poly: 0x1021, init: 0, refin: false, refout: false, xorout: 0 };
pub const CRC_16_IBM_3740: Algorithm = Algorithm { poly: 0x1021, init: 0xffff, refin: false, refout: false, xorout: 0 };
pub const CRC_16_GENIBUS: Algorithm = Algorithm { poly: 0x1021, init: 0xffff, refin: false, refout: false, xorout: 0xffff };
pub const CRC_16_GSM: Algorithm = Algorithm { poly: 0x1021, init: 0, refin: false, refout: false, xorout: 0xffff };
pub const CRC_16_KERMIT: Algorithm = Algorithm { poly: 0x1021, init: 0, refin: true, refout: true, xorout: 0 };
pub const CRC_16_IBM_SDLC: Algorithm = Algorithm { poly: 0x1021, init: 0xffff, refin: true, refout: true, xorout: 0xffff };
pub const CRC_16_ARC: Algorithm = Algorithm { poly: 0x8005, init: 0, refin: true, refout: true, xorout: 0 };
pub const CRC_16_MODBUS: Algorithm = Algorithm { poly: 0x8005, init: 0xffff, refin: true, refout: true, xorout: 0 };
pub const CRC_16_UMTS: Algorithm = Algorithm { poly: 0x8005, init: 0, refin: false, refout: false, xorout: 0 };
pub uninterp spec fn reflected(a: Algorithm, b: Seq<u8>) -> u16;
pub open spec fn sum(a: Algorithm, b: Seq<u8>) -> u16 {
    if a.refin || a.refout { reflected(a, b) } else { crc_from(a.init, a.poly, b, b.len()) ^ a.xorout }
}
pub struct Crc<W> { pub alg: Ghost<Algorithm>, pub w: ::std::marker::PhantomData<W> }
impl Crc<u16> {
    pub closed spec fn algorithm(&self) -> Algorithm { self.alg@ }
    #[verifier::external_body]
    pub fn new(a: &Algorithm) -> (r: Crc<u16>)
        ensures r.algorithm() == *a
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checksum(&self, b: &[u8]) -> (r: u16)
        ensures r == sum(self.algorithm(), b@)
    { unimplemented!() }
}
} // verus!
