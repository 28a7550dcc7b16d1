fn const CRC() -> r [C12] {{{
    ensures forall|b: Seq<u8>| #[trigger] crate::shim::crc::sum(r.algorithm(), b) == crc16(b)
}}}
head {{{
    proof { lemma_xor(); }
}}}
bottom {{{
proof fn lemma_xor()
    ensures forall|x: u16| #[trigger] (x ^ 0u16) == x
{ assert(forall|x: u16| #[trigger] (x ^ 0u16) == x) by (bit_vector); }
}}}
fn crc_hash(bytes) -> r [C12] {{{
    ensures r as int == slot_of(bytes@)
}}}
head {{{
    proof {
        // the modulo, written as a mask
        assert(forall|x: u16| #[trigger] (x & 16383u16) == x % 16384u16) by (bit_vector);
    }
}}}
