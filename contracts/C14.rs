#![allow(unused_imports)]
use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include panic_ends.rs
//@include std.rs
//@overflow panics

// ---------------------------------------------------------------- the output
pub mod io {
    use super::*;
    pub struct Error;
    pub enum ErrorKind { InvalidInput, InvalidData, NotFound, Other }
    impl ErrorKind {
        #[verifier::external_body]
        pub fn into(self) -> Error { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    /// std's write_fmt (write!): Ok means the whole text was accepted
    pub trait Write {
        /// everything handed to this output so far was accepted, whole
        spec fn whole(&self) -> bool;
        fn put_text(&mut self, t: String) -> (r: Result<()>)
            ensures final(self).whole() == (old(self).whole() && r is Ok);
        fn write_all(&mut self, t: &[u8]) -> (r: Result<()>)
            ensures final(self).whole() == (old(self).whole() && r is Ok);
        /// may accept only part of it
        fn write(&mut self, t: &[u8]) -> (r: Result<usize>)
            ensures final(self).whole() == (old(self).whole() && r == Ok::<usize, Error>(t.len()));
        /// std's flush
        fn flush(&mut self) -> (r: Result<()>)
            ensures final(self).whole() == (old(self).whole() && r is Ok);
    }
}
use io::Write;
//@pieces
    ensures final(w).whole() == (old(w).whole() && r is Ok),
//@end

// ---------------------------------------------------------------- the data
//@include core_types.rs
//@type gen/flat.rs Charlike
//@type gen/flat.rs FlattenedPath
//@type gen/flat.rs FlattenedRoute
//@type gen/flat.rs FlattenedRoutes
//@type gen/flat.rs FlattenedModules
//@type gen/flat.rs FlattenedModule
//@type gen/flat.rs FlattenedAction
//@type gen/trie.rs Trie

impl Clone for Charlike { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl PartialEq for Charlike { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Disp for Method { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn disp(&self, o: &mut String) { unimplemented!() } }
pub assume_specification [String::len] (s: &String) -> usize;
pub assume_specification [String::as_bytes] (s: &String) -> &[u8];
#[verifier::external_body]
fn str_replace(s: &String, a: &str, b: &str) -> String { unimplemented!() }
#[verifier::external_body]
fn slice_to(s: &String, n: usize) -> &str { unimplemented!() }

// nothing is assumed of what only computes the text
impl FlattenedRoutes {
//@sig gen/flat.rs <From<&'aRoutes> for FlattenedRoutes>::from
//@end
//@sig gen/flat.rs FlattenedRoutes::to_trie
//@end
}
impl FlattenedModules {
//@sig gen/flat.rs <From<&'aRoutes> for FlattenedModules>::from
//@end
}
impl FlattenedPath {
//@sig gen/flat.rs FlattenedPath::iter
//@end
//@sig gen/flat.rs FlattenedPath::dynamics
//@end
}
impl Method {
//@sig core/mod.rs Method::byte_str
//@end
}
impl Routes {
//@sig core/mod.rs Routes::stringify
//@end
}
//@others gen/gen.rs

// ---------------------------------------------------------------- every function that writes
//@writers gen/gen.rs -> r
    ensures
        // success is reported only if the output accepted everything it was given
        old($w).whole() && r is Ok ==> final($w).whole(),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loopall
    invariant
        old($w).whole() ==> $w.whole(),
//@end
}
