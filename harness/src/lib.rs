//! Property-based testing harness for rcgal.
//!
//! `engine` is the choice-tape engine (generation, shrinking, replay, evidence),
//! `exact` the exact integer oracles, `gen` the structured generators,
//! `curve` the oracle for circles and arcs, `fuel` a user-defined number type,
//! and `props::*` one module per property.
pub mod battery;
pub mod curve;
pub mod engine;
pub mod exact;
pub mod fuel;
pub mod gen;
pub mod nearmiss;
pub mod probe;
pub mod real;
pub mod rotated;
pub mod signs;
pub mod unequal;
pub mod props;
pub mod util;
