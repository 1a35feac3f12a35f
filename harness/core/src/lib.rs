//! Deterministic property-testing engine: choice-stream generation, shrinking,
//! crash/hang-isolating worker processes, evidence and replay files.
pub mod runner;
pub mod src;
pub mod util;
pub use runner::*;
pub use src::Src;
pub use util::*;
