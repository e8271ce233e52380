#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
//@include panic_ends.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@include flatmod.rs
//@include charlike.rs
//@include trie.rs
/// nothing is assumed
pub open spec fn places_given(all: Multiset<Place>) -> bool { true }
//@include routes.rs
}
