#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::string::*;
verus! {
//@overflow panics
//@only top
//@include panic_ends.rs
//@include prelude.rs
//@include std.rs
//@include core_types.rs
//@include model.rs
//@given flatmod.rs
pub open spec fn given(all: Multiset<Item>) -> bool { true }
pub open spec fn places_given(all: Multiset<Place>) -> bool { true }
//@given modflatten.rs
//@given charlike.rs
//@given trie.rs
//@given routes.rs
//@given text.rs
//@given case.rs
//@given method.rs
//@include output.rs
//@given modtext.rs
//@given program.rs
//@given matcher.rs
//@given print.rs
//@include toptext.rs
}
