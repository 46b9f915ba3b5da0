//! All code lives below `engine/`, so that the location of a panic tells the harness from the
//! library under test.

pub mod engine;
pub use engine::*;
