//! `std`
pub mod io;
pub mod num;
pub mod string;
pub mod ops;
pub mod convert;
pub mod slice;
pub mod mem;
pub mod fmt { pub use ::std::fmt::*; }
pub mod vec;
pub mod str;
pub mod time;
pub mod cmp;
pub mod sync;
pub mod cell;
pub mod hash;
pub mod net;
pub mod collections;
pub mod rc;
pub mod os;
pub mod thread;
