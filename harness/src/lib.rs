//! Oracles, input generators, API runners and suites. `no_std` + `alloc` so that the same code runs natively,
//! under sanitizers and Miri (any target), and inside a WebAssembly engine.
#![cfg_attr(not(any(feature = "bins", feature = "mi")), no_std)]
extern crate alloc;

#[cfg(any(feature = "bins", feature = "mi"))]
pub mod caller;
pub mod gen;
pub mod histories;
pub mod lens;
pub mod periodic;
pub mod ops;
#[cfg(any(feature = "bins", feature = "mi"))]
pub mod race;
pub mod rng;
pub mod spec;
pub mod story;
pub mod suites;
pub mod trace;
#[cfg(feature = "vops")]
pub mod vops;
