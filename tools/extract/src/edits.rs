//! Edits of a source text: insertions and replacements of ranges.
#[derive(Default, Clone)]
pub struct Edits {
    v: Vec<(usize, usize, i32, String)>,
}
impl Edits {
    pub fn insert(&mut self, at: usize, t: String) {
        if !t.is_empty() {
            self.v.push((at, at, 1, t));
        }
    }
    /// Before the other insertions at that place.
    pub fn insert_early(&mut self, at: usize, t: String) {
        if !t.is_empty() {
            self.v.push((at, at, 0, t));
        }
    }
    pub fn insert_late(&mut self, at: usize, t: String) {
        if !t.is_empty() {
            self.v.push((at, at, 2, t));
        }
    }
    pub fn replace(&mut self, a: usize, b: usize, t: String) {
        self.v.push((a, b, 1, t));
    }
    pub fn clear_in(&mut self, a: usize, b: usize) {
        self.v.retain(|(x, y, _, _)| !(*x >= a && *y <= b));
    }
    /// Text of `src[a..b]` with the edits. Edits inside a replaced range are
    /// dropped.
    pub fn apply(&self, src: &str, a: usize, b: usize) -> (String, usize) {
        let mut v: Vec<(usize, &(usize, usize, i32, String))> = self
            .v
            .iter()
            .enumerate()
            .filter(|(_, e)| e.0 >= a && e.1 <= b)
            .collect();
        // at the same start: insertions (in order), then the replacement, the
        // widest first
        v.sort_by(|x, y| {
            let (xi, xe) = x;
            let (yi, ye) = y;
            xe.0.cmp(&ye.0)
                .then_with(|| {
                    let xl = xe.1 > xe.0;
                    let yl = ye.1 > ye.0;
                    xl.cmp(&yl)
                })
                .then_with(|| (ye.1 - ye.0).cmp(&(xe.1 - xe.0)))
                .then_with(|| xe.2.cmp(&ye.2))
                .then_with(|| xi.cmp(yi))
        });
        let mut out = String::new();
        let mut pos = a;
        let mut n = 0;
        for (_, (s, e, _, t)) in v {
            if *s < pos {
                continue; // inside a replaced range
            }
            out.push_str(&src[pos..*s]);
            out.push_str(t);
            pos = *e;
            n += 1;
        }
        out.push_str(&src[pos..b]);
        (out, n)
    }
}
