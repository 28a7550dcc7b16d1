//! Contracts of what the code under verification calls but does not define: the
//! standard library and the dependencies. Everything here is trusted; every
//! `external_body` below is an assumption listed in the evidence.
pub mod std;
pub mod core;
pub mod bytes;
pub mod bytestring;
pub mod indexmap;
pub mod anyhow;
pub mod atoi_simd;
pub mod fmt;
pub mod prelude;
pub mod iter;
pub mod monoio;
pub mod text;
pub use text::String;
pub mod open;
pub use open::*;
pub mod dup;
pub use dup::*;
pub mod crc;
pub mod base;
pub use base::*;
pub mod world;
pub use world::World;
pub mod scc;
pub mod coarsetime;
pub mod rustc_hash;
pub mod sharded_thread;
pub mod futures_locks;
pub mod local_sync;
pub mod task;
pub use task::*;
