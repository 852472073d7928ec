//! Replay of the contracts of `storage` against the compiled crate.
mod faults;
mod tables;
fn main() { h_lib::main(&[("S01", tables::s01), ("S05", tables::s05)]) }
