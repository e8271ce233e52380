#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
//@include panic_ends.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@include flatmod.rs
/// nothing is assumed about the configuration
pub open spec fn given(all: Multiset<Item>) -> bool { true }
//@include modflatten.rs
//@include determined.rs
}
