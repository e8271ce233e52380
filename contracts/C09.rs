#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@overflow panics
//@include panic_ends.rs
//@include prelude.rs
//@include std.rs
//@include text.rs
//@include core_types.rs
//@include method.rs
//@include output.rs
//@include print.rs
//@include printconf.rs
}
