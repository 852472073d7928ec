// M02/M03: what a record's create, update and delete keep true, once and for all collections
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
}
//@helpers
fn main() {}
