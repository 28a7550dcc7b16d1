#[allow(unused_imports)] pub use crate::shim::text::{StrLike, Shown, ToString_, Case_, AsciiCase_, AsBytes_, EachByteOf_, Pieces, Search_, SearchBytes_, Pat_};
#[allow(unused_imports)] pub use crate::shim::bytes::Buffer;
#[allow(unused_imports)] pub use crate::shim::iter::{Iter_, IterRef_, Bounds_, Asked_};
#[allow(unused_imports)] pub use crate::shim::std::vec::{IntoIter_, ToVec_, Retain_};
#[allow(unused_imports)] pub use crate::shim::open::{Open_, Mark_, Reopen_, Full_};
#[allow(unused_imports)] pub use crate::shim::dup::{Dup_, Cloned_, Pow_};
#[allow(unused_imports)] pub use crate::shim::std::cmp::Ordered_;
