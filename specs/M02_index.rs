// M02: the unique-index primitives every provider is built on
//@include base.rs
use vstd::prelude::*;
verus! {
//@include metaerr.rs
//@include store.rs
//@include stdspec.rs
//@include index.rs
}
//@helpers
fn main() {}
