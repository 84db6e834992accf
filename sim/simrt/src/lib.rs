//! Deterministic simulation runtime: scheduler, system-call seam with fault injection, PRNG.
#![allow(invalid_runtime_symbol_definitions)]
pub mod codec;
pub mod io;
pub mod mem;
pub mod prng;
pub mod raw;
pub mod sched;
pub mod plan;
