pub use ::std::convert::*;
