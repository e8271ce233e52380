#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::string::*;
verus! {
//@overflow panics
//@support
//@include panic_never.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@given flatmod.rs
//@given charlike.rs
//@given trie.rs
//@include text.rs
//@given case.rs
//@include method.rs
//@include output.rs
//@include program.rs
//@include matcher.rs
}
