ID="c12-poly"; PROPERTY="C12"
NEEDS="a key whose CRC16 is 16384 * k + 16383"
BREAKS="the slot is the CRC modulo 16383 for those keys (a mask replaces the modulo, with the wrong bound)"
EDITS=[("infrastructure/hash/mod.rs","""    CRC.checksum(bytes) % HASH_SLOT_MAX
""","""    let crc = CRC.checksum(bytes) & (HASH_SLOT_MAX - 1);
    if crc < HASH_SLOT_MAX - 1 {
        crc
    } else {
        0
    }
""")]
DEMO=r'''mod common;
use common::*;
use roster::infrastructure::hash::crc_hash;
fn crc(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b { c ^= (*x as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 } } }
    c
}
fn main() {
    let mut bad = 0;
    for i in 0..200000u32 {
        let k = format!("key{}", i);
        if crc_hash(k.as_bytes()) != crc(k.as_bytes()) % 16384 { bad += 1 }
    }
    check(bad == 0, &format!("{} keys of 200000 have another slot", bad));
}
'''
