#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Core of the deterministic simulation: choices, the simulated world (disk, pipes, clock,
//! entropy) and the libc seam through which real code reaches it.
pub mod choice;
pub mod interpose;
pub mod vfs;
pub mod world;

pub use choice::{Chooser, Rng};
pub use world::{World, WORLD};

/// The pseudo exit status of a program that is stuck in an endless loop
pub const STUCK: i32 = i32::MIN;
