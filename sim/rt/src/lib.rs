//! The simulator core (never instrumented): simulated machine, seeded
//! scenario generation, fault counters, batches, minimisation and replay.
#![allow(static_mut_refs)]
#![allow(clippy::all)]
pub mod engine;
pub mod rng;
pub mod rt;
pub mod scen;
pub mod sys;
