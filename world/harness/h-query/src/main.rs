//! Replay of the contracts of `query` against the compiled crate.
mod data;
mod aggregates;
mod segments;
mod filters;
mod funnels;
fn main() { h_lib::main(&[("Q01", segments::q01), ("Q02", aggregates::q02), ("Q03", funnels::q03), ("Q04", filters::q04), ("Q05", filters::q05)]) }
