//! Codegen utilities for producing route matchers.

mod flat;
mod gen;
mod trie;

pub use gen::codegen;
