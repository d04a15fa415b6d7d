//! C29, on the engine of the other checks but without using the library itself.

#[path = "../../harness/src/engine.rs"]
#[macro_use]
pub mod engine;

/// The engine starts the vocabulary of each case; there is none here.
pub mod gen {
    pub fn fresh_vocab() {}
}

#[path = "types.rs"]
mod types;

pub mod checks {
    pub fn all() -> Vec<crate::engine::Check> { crate::types::checks() }
}
