//! Only here so that cargo builds the library and its macros the way a user's crate would.
pub use ttgraph::*;
