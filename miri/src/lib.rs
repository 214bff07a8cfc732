//! The executions of C28, for the Miri interpreter. Shares its sources with the harness.
#![allow(dead_code, clippy::all)]
#[path = "../../harness/src/formulas.rs"]
pub mod formulas;
#[path = "../../harness/src/lits.rs"]
pub mod lits;
#[path = "../../harness/src/mem.rs"]
pub mod mem;
#[path = "../../harness/src/refsat.rs"]
pub mod refsat;
#[path = "../../harness/src/steps.rs"]
pub mod steps;
pub mod hist {
    pub use crate::lits::*;
}
