// ---------------------------------------------------------------- gen/gen.rs: the text of a module
// `o` is the text before; every line as the code puts it together
/// a path as documentation: its text, parameters in braces, slashes between segments
pub open spec fn doc_path(o: Seq<char>, cs: Seq<Charlike>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { o } else {
        let t = doc_path(o, cs, n - 1);
        match cs[n - 1] {
            Charlike::Static(c) => t + (o0() + seq![c]),
            Charlike::Dynamic(p) => t + (o0() + "{"@ + p@ + "}"@),
            Charlike::Separator => if n == cs.len() { t } else { t + (o0() + "/"@) },
        }
    }
}
/// a path as a format string: `{}` for each parameter
pub open spec fn fmt_path(o: Seq<char>, cs: Seq<Charlike>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { o } else {
        let t = fmt_path(o, cs, n - 1);
        match cs[n - 1] {
            Charlike::Static(c) => t + (o0() + seq![c]),
            Charlike::Dynamic(p) => t + (o0() + "{}"@),
            Charlike::Separator => if n == cs.len() { t } else { t + (o0() + "/"@) },
        }
    }
}
pub open spec fn header_lines(o: Seq<char>, hs: Seq<Header>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { header_lines(o, hs, ind, n - 1) + (o0() + ind + hs[n - 1].text@ + "\n"@) } }
/// a required field for each parameter
pub open spec fn required(o: Seq<char>, ps: Seq<Param>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { required(o, ps, ind, n - 1) + (o0() + ind + "    pub "@ + ps[n - 1].name@ + ": "@ + ps[n - 1].typ@ + ",\n"@) } }
/// an optional field for each parameter
pub open spec fn optional(o: Seq<char>, ps: Seq<Param>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { optional(o, ps, ind, n - 1) + (o0() + ind + "    pub "@ + ps[n - 1].name@ + ": Option<"@ + ps[n - 1].typ@ + ">,\n"@) } }
pub open spec fn refs(o: Seq<char>, ps: Seq<Param>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { refs(o, ps, n - 1) + (o0() + "ref "@ + ps[n - 1].name@ + ", "@) } }
pub open spec fn args(o: Seq<char>, ps: Seq<Param>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { args(o, ps, n - 1) + (o0() + ", "@ + ps[n - 1].name@) } }

pub open spec fn no_fields(a: FlattenedAction) -> bool { a.route_parameters@.len() == 0 && a.query_parameters@.len() == 0 }
/// the type of an action
pub open spec fn struct_text(o: Seq<char>, a: FlattenedAction, ind: Seq<char>) -> Seq<char> {
    let cs = path_chars(a.path.segments@);
    let t = o + (o0() + ind + "/// Renders for `"@ + method_text(a.method) + " /"@);
    let t = doc_path(t, cs, cs.len() as int) + (o0() + "`.\n"@) + (o0() + ind + "#[derive(Debug, PartialEq, Eq)]\n"@);
    let t = t + (o0() + ind + "pub struct "@ + caps(a.name@));
    if no_fields(a) { t + (o0() + ";\n"@) }
    else {
        let t = required(t + (o0() + " {\n"@), a.route_parameters@, ind, a.route_parameters@.len() as int);
        optional(t, a.query_parameters@, ind, a.query_parameters@.len() as int) + (o0() + ind + "}\n"@)
    }
}
/// its path function
pub open spec fn path_fn(o: Seq<char>, a: FlattenedAction, ind: Seq<char>) -> Seq<char> {
    let cs = path_chars(a.path.segments@);
    let t = o + (o0() + ind + "impl "@ + caps(a.name@) + " {\n"@);
    let t = t + (o0() + ind + "    /// Make a path to this route with the given parameters.\n"@) + (o0() + ind + "    pub fn to_path(&self) -> String {\n"@);
    let t = if no_fields(a) { t } else {
        let t = t + (o0() + ind + "        let "@ + caps(a.name@) + " { "@);
        let t = refs(t, a.route_parameters@, a.route_parameters@.len() as int);
        refs(t, a.query_parameters@, a.query_parameters@.len() as int) + (o0() + "} = self;\n"@)
    };
    let t = fmt_path(t + (o0() + ind + "        format!(\"/"@), cs, cs.len() as int) + (o0() + "\""@);
    let t = args(t, a.route_parameters@, a.route_parameters@.len() as int) + (o0() + ")\n"@);
    t + (o0() + ind + "    }\n"@) + (o0() + ind + "}\n"@)
}
pub open spec fn action_types(o: Seq<char>, acts: Seq<FlattenedAction>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { path_fn(struct_text(action_types(o, acts, ind, n - 1), acts[n - 1], ind) + (o0() + "\n"@), acts[n - 1], ind) + (o0() + "\n"@) } }
pub open spec fn action_variants(o: Seq<char>, acts: Seq<FlattenedAction>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { action_variants(o, acts, ind, n - 1) + (o0() + ind + "    "@ + caps(acts[n - 1].name@) + "("@ + caps(acts[n - 1].name@) + "),\n"@) } }
pub open spec fn module_variants(o: Seq<char>, ms: Seq<FlattenedModule>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { module_variants(o, ms, ind, n - 1) + (o0() + ind + "    "@ + caps(ms[n - 1].name@) + "("@ + snake(ms[n - 1].name@) + "::Route),\n"@) } }
pub open spec fn action_arms(o: Seq<char>, acts: Seq<FlattenedAction>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { action_arms(o, acts, ind, n - 1) + (o0() + ind + "            Route::"@ + caps(acts[n - 1].name@) + "(ref route) => route.to_path(),\n"@) } }
pub open spec fn module_arms(o: Seq<char>, ms: Seq<FlattenedModule>, ind: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { o } else { module_arms(o, ms, ind, n - 1) + (o0() + ind + "            Route::"@ + caps(ms[n - 1].name@) + "(ref route) => route.to_path(),\n"@) } }
/// the submodules, each in its own `pub mod`
pub open spec fn submodules(o: Seq<char>, m: FlattenedModule, hs: Seq<Header>, ind: Seq<char>, n: int) -> Seq<char>
    decreases m, n
{
    if n <= 0 || n > m.modules@.len() { o } else {
        let t = submodules(o, m, hs, ind, n - 1) + (o0() + ind + "pub mod "@ + snake(m.modules@[n - 1].name@) + " {\n"@);
        module_text(t, m.modules@[n - 1], hs, o0() + ind + "    "@) + (o0() + ind + "}\n"@) + (o0() + "\n"@)
    }
}
/// a module: headers, action types, submodules, and the enumeration of both
pub open spec fn module_text(o: Seq<char>, m: FlattenedModule, hs: Seq<Header>, ind: Seq<char>) -> Seq<char>
    decreases m, m.modules@.len() + 1
{
    let t = header_lines(o, hs, ind, hs.len() as int);
    let t = if hs.len() > 0 { t + (o0() + "\n"@) } else { t };
    let t = action_types(t, m.actions@, ind, m.actions@.len() as int);
    let t = submodules(t, m, hs, ind, m.modules@.len() as int);
    let t = if ind == "    "@ { t + (o0() + ind + "/// An active route in the application -- match against this.\n"@) }
        else { t + (o0() + ind + "/// Parameters for requests to the "@ + snake(m.name@) + " controller.\n"@) };
    let t = t + (o0() + ind + "#[derive(Debug, PartialEq, Eq)]\n"@) + (o0() + ind + "pub enum Route {\n"@);
    let t = module_variants(action_variants(t, m.actions@, ind, m.actions@.len() as int), m.modules@, ind, m.modules@.len() as int);
    let t = t + (o0() + ind + "}\n"@) + (o0() + "\n"@) + (o0() + ind + "impl Route {\n"@);
    let t = t + (o0() + ind + "    /// Make a path to this route with the given parameters.\n"@) + (o0() + ind + "    pub fn to_path(&self) -> String {\n"@) + (o0() + ind + "        match self {\n"@);
    let t = module_arms(action_arms(t, m.actions@, ind, m.actions@.len() as int), m.modules@, ind, m.modules@.len() as int);
    t + (o0() + ind + "        }\n"@) + (o0() + ind + "    }\n"@) + (o0() + ind + "}\n"@)
}
//@fn gen/gen.rs codegen_module -> r
    ensures
        r is Ok ==> final($1).text() == module_text(old($1).text(), *$2, $3@, $4@) && final($1).failed() == old($1).failed(),
        r is Err ==> final($1).failed(),
    decreases *$2
//@start
    let ghost (me, hs, ind) = (*$2, $3@, $4@);
    let ghost f0 = $1.failed();
//@before 1
    let ghost b1 = $1.text();
//@loop 1
    invariant $1.failed() == f0, ind == $4@, hs == $3@, $v1@ == hs, $k1 <= $v1@.len(), $1.text() == header_lines(b1, hs, ind, $k1 as int),
    decreases $v1@.len() - $k1
//@before 2
    let ghost b2 = $1.text();
//@loop 2
    invariant $1.failed() == f0, ind == $4@, hs == $3@, me == *$2, $v2@ == me.actions@, $k2 <= $v2@.len(), $1.text() == action_types(b2, me.actions@, ind, $k2 as int),
    decreases $v2@.len() - $k2
//@before 3
    let ghost b3 = $1.text();
    let ghost cs = path.v@;
    proof { assert(cs.skip(0) =~= cs); }
//@loop 3
    invariant $1.failed() == f0, cs == path_chars(action.path.segments@), path.v@.len() <= cs.len(), path.v@ == cs.skip(cs.len() - path.v@.len()), $1.text() == doc_path(b3, cs, cs.len() - path.v@.len()),
    ensures $1.text() == doc_path(b3, cs, cs.len() as int),
    decreases path.v@.len()
//@head 3
    let ghost p3 = path.v@;
    proof { if p3.len() > 0 { assert(p3[0] == cs[cs.len() - p3.len()]); assert(p3.skip(1) =~= cs.skip(cs.len() - p3.len() + 1)); } }
//@before 4
    let ghost b4 = $1.text();
//@loop 4
    invariant $1.failed() == f0, ind == $4@, $v4@ == action.route_parameters@, $k4 <= $v4@.len(), $1.text() == required(b4, $v4@, ind, $k4 as int),
    decreases $v4@.len() - $k4
//@before 5
    let ghost b5 = $1.text();
//@loop 5
    invariant $1.failed() == f0, ind == $4@, $v5@ == action.query_parameters@, $k5 <= $v5@.len(), $1.text() == optional(b5, $v5@, ind, $k5 as int),
    decreases $v5@.len() - $k5
//@before 6
    let ghost b6 = $1.text();
//@loop 6
    invariant $1.failed() == f0, $v6@ == action.route_parameters@, $k6 <= $v6@.len(), $1.text() == refs(b6, $v6@, $k6 as int),
    decreases $v6@.len() - $k6
//@before 7
    let ghost b7 = $1.text();
//@loop 7
    invariant $1.failed() == f0, $v7@ == action.query_parameters@, $k7 <= $v7@.len(), $1.text() == refs(b7, $v7@, $k7 as int),
    decreases $v7@.len() - $k7
//@before 8
    let ghost b8 = $1.text();
    let ghost cs = path.v@;
    proof { assert(cs.skip(0) =~= cs); }
//@loop 8
    invariant $1.failed() == f0, cs == path_chars(action.path.segments@), path.v@.len() <= cs.len(), path.v@ == cs.skip(cs.len() - path.v@.len()), $1.text() == fmt_path(b8, cs, cs.len() - path.v@.len()),
    ensures $1.text() == fmt_path(b8, cs, cs.len() as int),
    decreases path.v@.len()
//@head 8
    let ghost p8 = path.v@;
    proof { if p8.len() > 0 { assert(p8[0] == cs[cs.len() - p8.len()]); assert(p8.skip(1) =~= cs.skip(cs.len() - p8.len() + 1)); } }
//@before 9
    let ghost b9 = $1.text();
//@loop 9
    invariant $1.failed() == f0, $v9@ == action.route_parameters@, $k9 <= $v9@.len(), $1.text() == args(b9, $v9@, $k9 as int),
    decreases $v9@.len() - $k9
//@before 10
    let ghost b10 = $1.text();
//@loop 10
    invariant $1.failed() == f0, ind == $4@, hs == $3@, me == *$2, $v10@ == me.modules@, $k10 <= $v10@.len(), $1.text() == submodules(b10, me, hs, ind, $k10 as int),
    decreases $v10@.len() - $k10
//@before 11
    let ghost b11 = $1.text();
//@loop 11
    invariant $1.failed() == f0, ind == $4@, $v11@ == me.actions@, $k11 <= $v11@.len(), $1.text() == action_variants(b11, me.actions@, ind, $k11 as int),
    decreases $v11@.len() - $k11
//@before 12
    let ghost b12 = $1.text();
//@loop 12
    invariant $1.failed() == f0, ind == $4@, $v12@ == me.modules@, $k12 <= $v12@.len(), $1.text() == module_variants(b12, me.modules@, ind, $k12 as int),
    decreases $v12@.len() - $k12
//@before 13
    let ghost b13 = $1.text();
//@loop 13
    invariant $1.failed() == f0, ind == $4@, $v13@ == me.actions@, $k13 <= $v13@.len(), $1.text() == action_arms(b13, me.actions@, ind, $k13 as int),
    decreases $v13@.len() - $k13
//@before 14
    let ghost b14 = $1.text();
//@loop 14
    invariant $1.failed() == f0, ind == $4@, $v14@ == me.modules@, $k14 <= $v14@.len(), $1.text() == module_arms(b14, me.modules@, ind, $k14 as int),
    decreases $v14@.len() - $k14
//@end
