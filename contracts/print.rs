// ---------------------------------------------------------------- core/mod.rs: a configuration as text
// text is put together from the left, as in the other text specifications
/// two blanks per level
pub open spec fn blanks(n: nat) -> Seq<char> { copies("  "@, n) }
//@fn core/mod.rs indent -> r
    ensures r@ == blanks($1 as nat),
//@end
pub open spec fn param_shown(p: Param) -> Seq<char> { p.name@ + ": "@ + p.typ@ }
impl Param {
//@fn core/mod.rs <Display for Param>::fmt -> r
    ensures r is Ok, final($1).out@ == old($1).out@ + param_shown(*$self),
//@end
}
impl Disp for Param {
    open spec fn shown(&self) -> Seq<char> { param_shown(*self) }
    fn disp(&self, o: &mut String) {
        let mut f = fmt::Formatter { out: String::new() };
        let _ = self.fmt(&mut f);
        proof { assert(f.out@ =~= param_shown(*self)); }
        o.push_str(f.out.as_str());
    }
}
/// query parameters of a block, a line each
pub open spec fn query_lines(ps: Seq<Param>, l: nat, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { o0() } else { query_lines(ps, l, (n - 1) as nat) + (blanks(l) + "["@ + param_shown(ps[n - 1]) + "]\n"@) } }
/// query parameters of a resource, each on a line after it
pub open spec fn query_after(ps: Seq<Param>, l: nat, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { o0() } else { query_after(ps, l, (n - 1) as nat) + (o0() + "\n"@ + blanks(l) + "["@ + param_shown(ps[n - 1]) + "]"@) } }
pub open spec fn mod_prefix(ms: Seq<String>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { o0() } else { mod_prefix(ms, (n - 1) as nat) + (ms[n - 1]@ + "::"@) } }
pub open spec fn resource_text(r: Resource, l: nat) -> Seq<char> {
    blanks(l) + method_text(r.method) + (if r.is_redirect { " ->"@ } else { o0() }) + " "@ + mod_prefix(r.modules@, r.modules@.len()) + r.name@
        + query_after(r.query_parameters@, l + 1, r.query_parameters@.len()) + "\n"@
}
pub open spec fn resource_lines(rs: Seq<Resource>, l: nat, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { o0() } else { resource_lines(rs, l, (n - 1) as nat) + resource_text(rs[n - 1], l) } }
pub open spec fn segment_text_of(s: PathSegment) -> Seq<char> {
    match s { PathSegment::Static(t) => t@, PathSegment::Dynamic(p) => "{"@ + param_shown(p) + "}"@ }
}
pub open spec fn nested_lines(ns: Seq<NestedRoutes>, l: nat, n: nat) -> Seq<char>
    decreases ns, n, 0int
{
    if n == 0 || n > ns.len() { o0() } else {
        nested_lines(ns, l, (n - 1) as nat) + (blanks(l) + segment_text_of(ns[n - 1].path_segment) + "\n"@ + routes_text(ns[n - 1].routes, l + 1))
    }
}
pub open spec fn nested_text(e: NestedRoutes, l: nat) -> Seq<char> { blanks(l) + segment_text_of(e.path_segment) + "\n"@ + routes_text(e.routes, l + 1) }
/// a block: its query parameters, its resources, its children, in order
pub open spec fn routes_text(r: Routes, l: nat) -> Seq<char>
    decreases r, 0nat, 1int
{
    query_lines(r.query_parameters@, l, r.query_parameters@.len()) + resource_lines(r.resources@, l, r.resources@.len()) + nested_lines(r.routes@, l, r.routes@.len())
}
impl Resource {
//@fn core/mod.rs Resource::stringify -> r
    ensures r@ == resource_text(*$self, $1 as nat),
//@start
    let ghost l = $1 as nat;
    proof { reveal_strlit(""); assert(""@ =~= o0()); }
//@loop 1
    invariant l == $1, $v1@ == self.query_parameters@, $k1 <= $v1@.len(), $o1@ == query_after($v1@, l + 1, $k1 as nat),
    decreases $v1@.len() - $k1
//@loop 2
    invariant $v2@ == self.modules@, $k2 <= $v2@.len(), $o2@ == mod_prefix($v2@, $k2 as nat),
    decreases $v2@.len() - $k2
//@end
}
impl Routes {
//@fn core/mod.rs Routes::stringify -> r
    ensures r@ == routes_text(*$self, $1 as nat),
    decreases *$self
//@start
    let ghost l = $1 as nat;
//@loop 1
    invariant l == $1, $v1@ == self.query_parameters@, $k1 <= $v1@.len(), $o1@ == query_lines($v1@, l, $k1 as nat),
    decreases $v1@.len() - $k1
//@loop 2
    invariant l == $1, $v2@ == self.resources@, $k2 <= $v2@.len(), $o2@ == resource_lines($v2@, l, $k2 as nat),
    decreases $v2@.len() - $k2
//@loop 3
    invariant l == $1, $v3@ == self.routes@, $k3 <= $v3@.len(), $o3@ == nested_lines($v3@, l, $k3 as nat),
    decreases $v3@.len() - $k3
//@end
}
impl NestedRoutes {
//@fn core/mod.rs NestedRoutes::stringify -> r
    ensures r@ == nested_text(*$self, $1 as nat),
    decreases *$self
//@end
}
