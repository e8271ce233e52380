#![allow(unused_imports)]
use vstd::prelude::*;
verus! {
//@include panic_never.rs
//@type core/mod.rs Method
//@type core/mod.rs Param
//@type core/mod.rs Resource

impl Resource {
//@fn core/mod.rs Resource::make -> r
    requires $2@.len() > 0,
    ensures
        r.method == $1,
        r.name == $2@.last(),
        r.modules@ == $2@.drop_last(),
        r.is_redirect == $3,
        r.query_parameters == $4,
//@end
}
}
