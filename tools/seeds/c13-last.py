ID="c13-last"; PROPERTY="C13"
NEEDS="a number of parts that does not divide 16384"
BREAKS="the last slots belong to no part when the number of parts does not divide 16384"
EDITS=[("domain/storage/mod.rs","""            let end = if slot == nb_slot - 1 {
                (slot + 1) * part_size + remainder
            } else {""","""            let end = if slot == nb_slot {
                (slot + 1) * part_size + remainder
            } else {""")]
DEMO=r'''mod common;
use common::*;
use roster::domain::dialer::Slot;
use roster::domain::storage::Storage;
fn main() {
    for n in 1..10u16 {
        let s = Storage::new(n, Slot::from(0..16384)).slots();
        let mut next = 0;
        for x in &s { check(x.start == next, &format!("{} parts: {:?}", n, x)); next = x.end; }
        check(next == 16384, &format!("{} parts: the last slot is {}", n, next));
    }
}
'''
