// M01: the key layout keeps projects, organizations, entity kinds, entities and indexes apart
//@include base.rs
use vstd::prelude::*;
verus! {
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include keylemmas.rs
}
//@helpers
fn main() {}
