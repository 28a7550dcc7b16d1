pub use ::std::ops::*;
