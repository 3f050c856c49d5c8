//! What of the recorders does not depend on the types of the library: optimised, and built once.
pub mod dbg;
pub mod rng;
pub mod snap;
pub mod universe;
