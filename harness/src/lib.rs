//! Property-based checks of divans: generators, drivers, oracles and the runner.
extern crate alloc_no_stdlib;
pub mod src;
pub mod gen;
pub mod heap;
pub mod drive;
pub mod lz;
pub mod refs;
pub mod adapt;
pub mod muxed;
pub mod symgen;
pub mod runner;
pub mod props;
