//! The crate given to the verifier.
#![feature(allocator_api)]
#![allow(unused, non_snake_case)]
#[path = "/verif/verus/shim/mod.rs"] pub mod shim;
#[path = "/verif/verus/spec/mod.rs"] pub mod spec;
#[path = "/verif/verus/lib.rs"] mod lib_;
pub use lib_::*;
pub mod application { pub mod server; }
pub mod infrastructure { pub mod hash; }
pub mod domain { pub mod cluster; pub mod dialer; pub mod storage; }
