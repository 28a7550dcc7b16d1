ID="c13-part"; PROPERTY="C13"
NEEDS="more than 256 threads, or a part index above 255, with a number of parts that does not divide 256"
BREAKS="the index of the thread is cut to 8 bits before the modulo, so the storage of a thread is not the one of its dialer"
EDITS=[("domain/storage/mod.rs","""        let remainder: u16 = part % self.internal_vec.len() as u16;
""","""        let remainder: u16 =
            u16::from(part as u8) % self.internal_vec.len() as u16;
""")]
DEMO=r'''mod common;
use common::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::Storage;
fn main() {
    let s = Storage::new(3, Slot::from(0..16384));
    let v = s.slots();
    for i in 0..1000u16 {
        let (x, _) = s.part(i);
        check(x.start == v[(i % 3) as usize].start, &format!("part {}: {:?}", i, x));
    }
}
'''
