#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
//@include panic_never.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@include flatmod.rs
/// no two resources have the same handler: then no panic is reachable
pub open spec fn given(all: Multiset<Item>) -> bool { distinct(all) }
//@include modflatten.rs
}
