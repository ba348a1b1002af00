//! Shared machinery of the monitors: workload generation, reference models (oracles), and the
//! runner that records what was observed. Nothing in here depends on the code under test.
pub mod color;
pub mod density;
pub mod heap;
pub mod img;
pub mod judge;
pub mod rng;
pub mod runner;
pub mod sandbox;
