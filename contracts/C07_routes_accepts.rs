#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
//@include panic_never.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@include flatmod.rs
//@include charlike.rs
//@include trie.rs
/// no two routes have the same path: then no panic is reachable
pub open spec fn places_given(all: Multiset<Place>) -> bool { apart(all) }
//@include routes.rs
}
