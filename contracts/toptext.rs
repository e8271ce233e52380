// ---------------------------------------------------------------- gen/gen.rs: the generated text, whole
/// the module opens, with its documentation up to the configuration
pub open spec fn opening(o: Seq<char>) -> Seq<char> {
    let o = o + "pub mod routes {\n"@ + "\n"@ + "    //! Application route configuration.\n"@ + "    //!\n"@ + "    //! Of note is the function [`match_route`] as well as request structs\n"@ + "    //! specific to each named resource.\n"@;
    let o = o + "    //!\n"@ + "    //! Route configuration:\n"@ + "    //!\n"@ + "    //! ```ignore\n"@ + "    //! /\n"@;
    o
}
/// after the configuration
pub open spec fn allows(o: Seq<char>) -> Seq<char> {
    let o = o + "    //! ```\n"@ + "    //!\n"@ + "    //! [`match_route`]: fn.match_route.html\n"@ + "\n"@ + "    #![allow(dead_code)]\n"@ + "    #![allow(unused_imports)]\n"@;
    let o = o + "    #![allow(unused_mut)]\n"@ + "    #![allow(unused_variables)]\n"@ + "\n"@;
    o
}
/// `Match`, `Error` and the head of `match_route`
pub open spec fn support_1(o: Seq<char>) -> Seq<char> {
    let o = o + "\n"@ + "    #[derive(PartialEq, Eq)]\n"@ + "    pub enum Match<T> {\n"@ + "        NotFound,\n"@ + "        NotAllowed,\n"@ + "        Route(T),\n"@;
    let o = o + "        Redirect(T),\n"@ + "    }\n"@ + "\n"@ + "    use std::fmt;\n"@ + "    impl<T: fmt::Debug> fmt::Debug for Match<T> {\n"@ + "        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n"@;
    let o = o + "            match self {\n"@ + "                Match::NotFound => write!(f, \"Match::NotFound\"),\n"@ + "                Match::NotAllowed => write!(f, \"Match::NotAllowed\"),\n"@ + "                Match::Route(t) => write!(f, \"Match::Route({:?})\", t),\n"@ + "                Match::Redirect(t) => write!(f, \"Match::Redirect({:?})\", t),\n"@ + "            }\n"@;
    o
}
pub open spec fn support_2(o: Seq<char>) -> Seq<char> {
    let o = o + "        }\n"@ + "    }\n"@ + "\n"@ + "    pub struct Error {\n"@ + "        param: String,\n"@ + "        what: Box<dyn fmt::Debug>,\n"@;
    let o = o + "    }\n"@ + "\n"@ + "    impl fmt::Debug for Error {\n"@ + "        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n"@ + "            f.debug_struct(\"wayfinder::Error\")\n"@ + "                .field(\"param\", &self.param)\n"@;
    let o = o + "                .field(\"what\", &self.what)\n"@ + "                .finish()\n"@ + "        }\n"@ + "    }\n"@ + "\n"@ + "    impl fmt::Display for Error {\n"@;
    o
}
pub open spec fn support_3(o: Seq<char>) -> Seq<char> {
    let o = o + "        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n"@ + "            write!(\n"@ + "                f,\n"@ + "                \"Error parsing '{}' parameter {:?}\",\n"@ + "                self.param, self.what\n"@ + "            )\n"@;
    let o = o + "        }\n"@ + "    }\n"@ + "\n"@ + "    impl std::error::Error for Error {}\n"@ + "\n"@ + "    impl Error {\n"@;
    let o = o + "        pub fn fail<S: AsRef<str>, T: fmt::Debug + 'static>(param: S, what: T) -> Error {\n"@ + "            Error {\n"@ + "                param: param.as_ref().to_string(),\n"@ + "                what: Box::new(what),\n"@ + "            }\n"@ + "        }\n"@;
    o
}
pub open spec fn support_4(o: Seq<char>) -> Seq<char> {
    let o = o + "    }\n"@ + "    /// Match a path and method against this router.\n"@ + "    ///\n"@ + "    /// Accepts a byte slice for the request path and HTTP verb.\n"@ + "    /// Returns a `Result`, usually `Ok` with the result of the\n"@ + "    /// [`Match`].\n"@;
    let o = o + "    ///\n"@ + "    /// If the match was successful, it will be a `Match::Route` or\n"@ + "    /// `Match::Redirect` with the parameters enclosed.  You can then\n"@ + "    /// match on the [`Route`] to pass control of the request along to\n"@ + "    /// a specific handler.\n"@ + "    ///\n"@;
    let o = o + "    /// If there is no match, this will return `Match::NotFound`\n"@ + "    /// if no path matches (which you could return as `404 Not Found`),\n"@ + "    /// or `Match::NotAllowed` if no method matches (in which case a\n"@ + "    /// `405 Not Allowed` would be appropriate).\n"@ + "    ///\n"@ + "    /// If a route parameter fails to parse correctly, this will return\n"@;
    o
}
pub open spec fn support_5(o: Seq<char>) -> Seq<char> {
    let o = o + "    /// `Err` with the underlying parsing error.  Usually you'll want\n"@ + "    /// to send back a `400 Bad Request` for that.\n"@ + "    ///\n"@ + "    /// [`Match`]: enum.Match.html\n"@ + "    /// [`Route`]: enum.Route.html\n"@ + "    pub fn match_route<P: AsRef<[u8]>, M: AsRef<[u8]>>(\n"@;
    let o = o + "        path: P,\n"@ + "        method: M,\n"@ + "    ) -> Result<Match<Route>, Error> {\n"@ + "        let method = method.as_ref();\n"@ + "        let path = path.as_ref();\n"@ + "        let len = path.len();\n"@;
    let o = o + "        let mut i = if len > 0 && &path[0..1] == b\"/\" { 1 } else { 0 };\n"@ + "\n"@;
    o
}
pub open spec fn support(o: Seq<char>) -> Seq<char> { support_5(support_4(support_3(support_2(support_1(o))))) }
/// after the body of `match_route`
pub open spec fn closing(o: Seq<char>) -> Seq<char> {
    let o = o + "    }\n"@ + "\n"@ + "} // mod routes\n"@;
    o
}
/// `s` with every `a` replaced by `b`: only that it is a function of them
// and the text before byte `n`
pub uninterp spec fn with_replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub open spec fn cut(s: Seq<char>, n: nat) -> Seq<char> { s.take(at(s, n)) }
#[verifier::external_body]
pub fn str_replace(s: &String, a: &str, b: &str) -> (r: String) ensures r@ == with_replaced(s@, a@, b@) { unimplemented!() }
pub open spec fn shown_config(c: RouteConfig) -> Seq<char> {
    let s = with_replaced(routes_text(c.routes, 1), "\n"@, "\n    //! "@);
    cut(s, (blen(s) - 8) as nat)
}
/// the text before the matcher's body
pub open spec fn before_body(o: Seq<char>, c: RouteConfig, root: FlattenedModule) -> Seq<char> {
    support(module_text(allows(opening(o) + "    //! "@ + shown_config(c)), root, c.headers@, "    "@))
}
/// everything that is written for a configuration, given its module tree and its trie
pub open spec fn code_text(o: Seq<char>, c: RouteConfig, root: FlattenedModule, t: T) -> Seq<char> {
    closing(show(before_body(o, c, root), 2, prog(tv(t))))
}
/// the module tree has the declared actions, each once
pub open spec fn root_of(root: FlattenedModule, c: RouteConfig) -> bool {
    tree(root, items(c.routes, seq![], seq![])) && distinct(items(c.routes, seq![], seq![])) && root.name@ == "routes"@
}
/// the trie has the declared places, each once
pub open spec fn paths_of(t: T, c: RouteConfig) -> bool {
    trie_of(t, places(c.routes, seq![], seq![])) && apart(places(c.routes, seq![], seq![]))
}
pub open spec fn generated(o: Seq<char>, n: Seq<char>, c: RouteConfig) -> bool {
    exists|root: FlattenedModule, t: T| #![trigger tree(root, items(c.routes, seq![], seq![])), trie_of(t, places(c.routes, seq![], seq![]))]
        root_of(root, c) && paths_of(t, c) && sound(prog(tv(t))) && n == code_text(o, c, root, t)
}
pub open spec fn refused(c: RouteConfig) -> bool { exists|t: T| (#[trigger] trie_of(t, places(c.routes, seq![], seq![]))) && paths_of(t, c) && !sound(prog(tv(t))) }
pub mod top {
use super::*;
broadcast use {super::assoc::pieces, super::assoc::first_piece, super::assoc::no_piece};
//@fn gen/gen.rs codegen -> r
    ensures
        r is Ok ==> generated(old($1).text(), final($1).text(), *$2),
        r is Err ==> final($1).failed() || refused(*$2),
//@start
    hide(module_text); hide(show); hide(prog); hide(sound); hide(tree); hide(items); hide(places); hide(distinct); hide(trie_of); hide(apart); hide(routes_text); hide(blen);
    let ghost o = $1.text();
//@call codegen_module 1
    proof { assert($1.text() == allows(opening(o) + "    //! "@ + shown_config(*$2))); }
//@call put_l 21
    let ghost s0 = $1.text();
    proof { assert(s0 == module_text(allows(opening(o) + "    //! "@ + shown_config(*$2)), modules.root, $2.headers@, "    "@)); }
//@call put_l 39
    let ghost s1 = $1.text();
    proof { assert(s1 == support_1(s0)); }
//@call put_l 57
    let ghost s2 = $1.text();
    proof { assert(s2 == support_2(s1)); }
//@call put_l 75
    let ghost s3 = $1.text();
    proof { assert(s3 == support_3(s2)); }
//@call put_l 93
    let ghost s4 = $1.text();
    proof { assert(s4 == support_4(s3)); }
//@call codegen_trie 1
    let ghost s5 = $1.text();
    proof { assert(s5 == support_5(s4)); }
    proof { assert($1.text() == before_body(o, *$2, modules.root)); }
//@end
}
