//! Conformance harness: executes the library and compares it with what the
//! specification exports, or records what it did for TLC to judge.
pub mod calls;
pub mod cards;
pub mod dump;
pub mod evals;
pub mod histories;
pub mod session;
pub mod shuffles;
pub mod table;
pub mod tables;
pub mod threads;
pub mod util;
