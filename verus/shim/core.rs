//! `core`
pub use super::std::{hash, mem, cmp, time};
