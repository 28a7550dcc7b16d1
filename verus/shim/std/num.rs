pub use ::std::num::TryFromIntError;
