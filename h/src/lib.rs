//! Property-based testing engine used by every check (choice-sequence generation, shrinking,
//! crash isolation in child processes, evidence), plus shared oracles (tracked payloads, checking allocator).
#![allow(clippy::all)]
pub mod engine;
pub mod track;
pub mod ty;
pub mod tychk;
pub mod rep;
pub mod chk;
pub use engine::*;
pub mod marks;
pub mod dynobj;
pub mod num08;
pub mod imp28;
