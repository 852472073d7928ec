// I01: one value of a request becomes the value its column stores
//@include base.rs
//@include ingest.rs
//@include ingestvalues.rs
} fn main() {}
