//! Specification functions and lemmas: what the properties mean, independent of
//! the code. Nothing here is executable.
pub mod resp;
pub mod resp_lemmas;
pub use resp::*;
pub use resp_lemmas::*;
pub mod stream;
pub use stream::*;
pub mod request;
pub use request::*;
pub mod slot;
pub use slot::*;
pub mod world;
pub use world::*;
pub mod reply;
pub use reply::*;
pub mod history;
pub mod pipeline;
pub use history::*;
pub use pipeline::*;
