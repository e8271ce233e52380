/// the header lines
pub open spec fn head_lines(hs: Seq<Header>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { o0() } else { head_lines(hs, (n - 1) as nat) + (hs[n - 1].text@ + "\n"@) } }
pub open spec fn config_text(c: RouteConfig) -> Seq<char> {
    let h = head_lines(c.headers@, c.headers@.len());
    h + (if h != ""@ { "\n"@ } else { o0() }) + "/\n"@ + routes_text(c.routes, 1)
}
impl RouteConfig {
//@fn core/mod.rs RouteConfig::stringify -> r
    ensures r@ == config_text(*$self),
//@start
    proof { reveal_strlit(""); assert(""@ =~= o0()); }
//@loop 1
    invariant $v1@ == self.headers@, $k1 <= $v1@.len(), $o1@ == head_lines($v1@, $k1 as nat),
    decreases $v1@.len() - $k1
//@end
}
