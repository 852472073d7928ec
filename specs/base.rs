//@rule unimplemented ! ( $$a ) =>> unimplemented!()
//@rule unreachable ! ( $$a ) =>> unimplemented!()
//@rule std :: result :: Result =>> Result
#![verifier::loop_isolation(false)]
#![feature(allocator_api)]
#![feature(sized_hierarchy)]
#![allow(unused, internal_features)]
