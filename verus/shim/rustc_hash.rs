//! `rustc_hash`
use vstd::prelude::*;
verus! { pub struct FxHasher { } }
