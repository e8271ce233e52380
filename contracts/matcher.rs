// ---------------------------------------------------------------- gen/gen.rs: the matcher, by its text
// ---- the text of the answers
pub open spec fn reserved(s: Seq<char>) -> bool { s == "path"@ || s == "method"@ || s == "len"@ || s == "i"@ || s == "start"@ || s == "end"@ || s == "text"@ }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
pub fn str_starts_with<S: AsText + ?Sized>(s: &S, p: &str) -> (r: bool) ensures r == starts(s.text(), p@) { unimplemented!() }
/// the local variable that holds a parameter
#[verifier::opaque]
pub open spec fn local(s: Seq<char>) -> Seq<char> { if reserved(s) || starts(s, "param_"@) { o0() + "param_"@ + s } else { s } }
#[verifier::opaque]
pub open spec fn byte_text(m: Method) -> Seq<char> { o0() + "b\""@ + method_text(m) + "\""@ }
pub open spec fn ind(n: nat) -> Seq<char> { copies("    "@, n) }
pub proof fn ind_more(n: nat) ensures ind(0) == o0(), ind(n + 1) == ind(n) + "    "@ { assert(ind(0) =~= o0()); }
pub open spec fn ln(o: Seq<char>, n: nat, s: Seq<char>) -> Seq<char> { o + (o0() + ind(n) + s) }
/// the module path of a handler
#[verifier::opaque]
pub open spec fn mod_path(ms: Seq<String>, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { o0() } else { mod_path(ms, k - 1) + (o0() + snake(ms[k - 1]@) + "::"@) } }
/// the variants around its action
#[verifier::opaque]
pub open spec fn mod_open(ms: Seq<String>, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { o0() } else { mod_open(ms, k - 1) + (o0() + mod_path(ms, k - 1) + "Route::"@ + caps(ms[k - 1]@) + "("@) } }
#[verifier::opaque]
pub open spec fn mod_close(k: int) -> Seq<char>
    decreases k
{ if k <= 0 { o0() } else { mod_close(k - 1).push(')') } }
pub proof fn mod_zero(ms: Seq<String>) ensures mod_path(ms, 0) == o0(), mod_open(ms, 0) == o0(), mod_close(0) == o0() { reveal(mod_path); reveal(mod_open); reveal(mod_close); }
pub open spec fn field_lines(o: Seq<char>, n: nat, ps: Seq<Param>, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { o } else {
        let t = field_lines(o, n, ps, k - 1);
        let p = ps[k - 1].name@;
        if local(p) == p { t + (o0() + ind(n) + "            "@ + p + ",\n"@) } else { t + (o0() + ind(n) + "            "@ + p + ": "@ + local(p) + ",\n"@) }
    }
}
pub open spec fn none_lines(o: Seq<char>, n: nat, ps: Seq<Param>, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { o } else { none_lines(o, n, ps, k - 1) + (o0() + ind(n) + "            "@ + ps[k - 1].name@ + ": None,\n"@) } }
/// the answer for one resource
pub open spec fn answer_text(o: Seq<char>, n: nat, v: Place, r: Resource) -> Seq<char> {
    let (ms, k) = (r.modules@, r.modules@.len() as int);
    let t = o + (o0() + ind(n) + "        "@ + byte_text(r.method) + " => return Ok(Match::"@ + (if r.is_redirect { "Redirect"@ } else { "Route"@ }) + "("@ + mod_open(ms, k) + mod_path(ms, k) + "Route::"@ + caps(r.name@) + "("@ + mod_path(ms, k) + caps(r.name@) + " {\n"@);
    let ps = params(v.path);
    let t = field_lines(t, n, ps, ps.len() as int);
    let t = none_lines(t, n, v.query, v.query.len() as int);
    let t = none_lines(t, n, r.query_parameters@, r.query_parameters@.len() as int);
    t + (o0() + ind(n) + "        }"@ + mod_close(k) + "))),\n"@)
}
pub open spec fn answer_texts(o: Seq<char>, n: nat, v: Place, k: int) -> Seq<char>
    decreases k
{ if k <= 0 { o } else { answer_text(answer_texts(o, n, v, k - 1), n, v, v.res[k - 1]) } }
pub open spec fn methods_text(o: Seq<char>, n: nat, v: Place) -> Seq<char> {
    let t = ln(ln(o, n, "if i == len {\n"@), n, "    match method {\n"@);
    let t = answer_texts(t, n, v, v.res.len() as int);
    ln(ln(ln(t, n, "        _ => return Ok(Match::NotAllowed),\n"@), n, "    }\n"@), n, "}\n"@)
}
// ---- the text of each step
#[verifier::opaque]
pub open spec fn end_text(o: Seq<char>, n: nat) -> Seq<char> { ln(ln(ln(o, n, "if i == len {\n"@), n, "    return Ok(Match::NotFound);\n"@), n, "}\n"@) }
#[verifier::opaque]
pub open spec fn slash_text(o: Seq<char>, n: nat) -> Seq<char> {
    let t = ln(ln(o, n, "match &path[i..i+1] {\n"@), n, "    b\"/\" => {\n"@);
    let t = ln(ln(t, n, "        i += 1;\n"@), n, "    },\n"@);
    ln(ln(t, n, "    _ => return Ok(Match::NotFound),\n"@), n, "}\n"@)
}
#[verifier::opaque]
pub open spec fn literal_text(o: Seq<char>, n: nat, s: Seq<char>) -> Seq<char> {
    let l = digits(blen(s));
    let t = if blen(s) == 1 { ln(o, n, "if i == len {\n"@) } else { o + (o0() + ind(n) + "if i + "@ + l + " > len {\n"@) };
    let t = ln(ln(t, n, "    return Ok(Match::NotFound);\n"@), n, "}\n"@);
    let t = t + (o0() + ind(n) + "match &path[i..i+"@ + l + "] {\n"@);
    let t = t + (o0() + ind(n) + "    b\""@ + s + "\" => {\n"@);
    let t = t + (o0() + ind(n) + "        i += "@ + l + ";\n"@);
    ln(ln(ln(t, n, "    },\n"@), n, "    _ => return Ok(Match::NotFound),\n"@), n, "}\n"@)
}
pub open spec fn blank(o: Seq<char>) -> Seq<char> { o + (o0() + "\n"@) }
#[verifier::opaque]
pub open spec fn param_text(o: Seq<char>, n: nat, name: Seq<char>) -> Seq<char> {
    let t = ln(blank(o), n, "while i < len && &path[i..i+1] != b\"/\" {\n"@);
    let t = blank(ln(ln(t, n, "    i += 1;\n"@), n, "}\n"@));
    let t = ln(t, n, "let text = std::str::from_utf8(&path[start..i]).unwrap();\n"@);
    let t = t + (o0() + ind(n) + "let "@ + local(name) + " = text.parse()\n"@);
    blank(t + (o0() + ind(n) + "    .map_err(|e| Error::fail(\""@ + name + "\", e))?;\n"@))
}
#[verifier::opaque]
pub open spec fn try_text(o: Seq<char>, n: nat, l: nat, s: Seq<char>) -> Seq<char> {
    let d = digits(l);
    let t = if l == 1 { ln(o, n, "if i < len {\n"@) } else { o + (o0() + ind(n) + "if i + "@ + d + " <= len {\n"@) };
    let t = t + (o0() + ind(n + 1) + "match &path[i..i+"@ + d + "] {\n"@);
    let t = t + (o0() + ind(n + 1) + "    b\""@ + s + "\" => {\n"@);
    t + (o0() + ind(n + 1) + "        i += "@ + d + ";\n"@)
}
#[verifier::opaque]
pub open spec fn tried_text(o: Seq<char>, n: nat) -> Seq<char> { ln(ln(ln(ln(o, n + 1, "    },\n"@), n + 1, "    _ => {},\n"@), n + 1, "}\n"@), n, "}\n"@) }
#[verifier::opaque]
pub open spec fn segment_text(o: Seq<char>, n: nat) -> Seq<char> {
    let t = ln(ln(o, n, "let mut end = i;\n"@), n, "while end < len && &path[end..end+1] != b\"/\" {\n"@);
    ln(ln(ln(t, n, "    end += 1;\n"@), n, "}\n"@), n, "match &path[i..end] {\n"@)
}
pub open spec fn show(o: Seq<char>, n: nat, c: Code) -> Seq<char>
    decreases c, 0nat
{
    match c {
        Code::NotFound => ln(o, n, "return Ok(Match::NotFound);\n"@),
        Code::AtEnd(v, x) => show(methods_text(o, n, v), n, *x),
        Code::EndNotFound(x) => show(end_text(o, n), n, *x),
        Code::Slash(x) => show(slash_text(o, n), n, *x),
        Code::Literal(s, x) => show(literal_text(o, n, s), n, *x),
        Code::Start(b, x) => show(if b { blank(ln(blank(o), n, "let start = i;\n"@)) } else { ln(o, n, "let start = i;\n"@) }, n, *x),
        Code::Param(s, x) => show(param_text(o, n, s), n, *x),
        Code::Try(l, s, x, y) => show(tried_text(show(try_text(o, n, l, s), n + 3, *x), n), n, *y),
        Code::Segments(a, y) => show(ln(ln(segment_arms(segment_text(o, n), n, a, a.len()), n + 1, "_ => {},\n"@), n, "}\n"@), n, *y),
        Code::Next(a) => ln(ln(next_arms(ln(o, n, "match &path[i..i+1] {\n"@), n, a, a.len()), n, "    _ => return Ok(Match::NotFound),\n"@), n, "}\n"@),
        Code::Clash => o,
    }
}
pub open spec fn segment_arms(o: Seq<char>, n: nat, a: Seq<(Seq<char>, Code)>, k: nat) -> Seq<char>
    decreases a, k
{
    if k == 0 || k > a.len() { o } else {
        let t = segment_arms(o, n, a, (k - 1) as nat) + (o0() + ind(n + 1) + "b\""@ + a[k - 1].0 + "\" => {\n"@);
        let t = t + (o0() + ind(n + 1) + "    i += "@ + digits(blen(a[k - 1].0)) + ";\n"@);
        ln(show(t, n + 2, a[k - 1].1), n + 1, "},\n"@)
    }
}
pub open spec fn next_arms(o: Seq<char>, n: nat, a: Seq<(char, Code)>, k: nat) -> Seq<char>
    decreases a, k
{
    if k == 0 || k > a.len() { o } else {
        let t = next_arms(o, n, a, (k - 1) as nat) + (o0() + ind(n + 1) + "b\""@ + seq![a[k - 1].0] + "\" => {\n"@);
        ln(show(ln(t, n + 1, "    i += 1;\n"@), n + 2, a[k - 1].1), n + 1, "},\n"@)
    }
}
impl Method {
//@fn core/mod.rs Method::byte_str -> r
    ensures r@ == byte_text(*$self),
//@start
    proof { reveal(byte_text); }
//@end
}
//@fn gen/gen.rs local_name -> r
    ensures r@ == local($1@),
//@start
    proof { reveal(local); }
//@end
//@fn gen/gen.rs write_methods -> r
    ensures
        r is Ok ==> final($1).text() == methods_text(old($1).text(), $3 as nat, place_of(*$2)) && final($1).failed() == old($1).failed(),
        r is Err ==> final($1).failed(),
//@start
    let ghost v = place_of(*$2);
    let ghost n = $3 as nat;
    let ghost f0 = $1.failed();
    proof { reveal_strlit(""); assert(""@ =~= o0()); }
//@before 1
    proof { assert(indent1@ =~= ind(0)); }
//@loop 1
    invariant $k1 <= $v1, indent1@ == ind($k1 as nat),
    decreases $v1 - $k1
//@before 2
    let ghost b2 = $1.text();
//@loop 2
    invariant v == place_of(*$2), indent1@ == ind(n), $v2@ == v.res, $k2 <= $v2@.len(), $1.text() == answer_texts(b2, n, v, $k2 as int), $1.failed() == f0,
    decreases $v2@.len() - $k2
//@head 2
    let ghost res = v.res[$k2 as int];
//@before 3
    proof { mod_zero(res.modules@); }
//@head 3
    proof { reveal(mod_path); reveal(mod_open); reveal(mod_close); }
//@loop 3
    invariant $v3@ == res.modules@, $k3 <= $v3@.len(), path@ == mod_path($v3@, $k3 as int), accum@ == mod_open($v3@, $k3 as int), parens@ == mod_close($k3 as int),
    decreases $v3@.len() - $k3
//@before 4
    let ghost b4 = $1.text();
    let ghost ps = params(v.path);
    let ghost d0 = $v4@;
    proof { assert(d0.skip(0) =~= d0); }
//@loop 4
    invariant v == place_of(*$2), indent1@ == ind(n), ps == params(v.path), $v4@.len() <= d0.len(), d0.map_values(|x: &Param| *x) == ps, $v4@ == d0.skip(d0.len() - $v4@.len()), $1.text() == field_lines(b4, n, ps, ps.len() - $v4@.len()), $1.failed() == f0,
    decreases $v4@.len()
//@head 4
    let ghost d = $v4@;
    proof {
        assert(d.skip(1) =~= d0.skip(d0.len() - d.len() + 1));
        assert(d[0] == d0[d0.len() - d.len()]);
        assert(*d[0] == ps[d0.len() - d.len()]);
        assert(d.remove(0) =~= d.skip(1));
    }
//@before 5
    let ghost b5 = $1.text();
//@loop 5
    invariant v == place_of(*$2), indent1@ == ind(n), $v5@ == v.query, $k5 <= $v5@.len(), $1.text() == none_lines(b5, n, $v5@, $k5 as int), $1.failed() == f0,
    decreases $v5@.len() - $k5
//@before 6
    let ghost b6 = $1.text();
//@loop 6
    invariant v == place_of(*$2), indent1@ == ind(n), $v6@ == res.query_parameters@, $k6 <= $v6@.len(), $1.text() == none_lines(b6, n, $v6@, $k6 as int), $1.failed() == f0,
    decreases $v6@.len() - $k6
//@end
pub open spec fn lviews(s: Seq<(String, &T)>) -> Seq<(Seq<char>, G)> { s.map_values(|x: (String, &T)| (x.0@, tv(*x.1))) }
//@fn gen/gen.rs literal_segments -> r
    ensures lviews(r@) == lits(tv(*$1)),
    decreases *$1
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost e = *$1;
    let ghost t = tv(e);
    proof { tv_is(e); }
//@before 1
    proof { assert(lviews(literals@) =~= seq![]); }
//@loop 1
    invariant $v1@ == e.children@, $k1 <= $v1@.len(), lviews(literals@) == lits_to(t, $k1 as nat),
    decreases $v1@.len() - $k1
//@before 2
    proof { tv_is(*child); }
//@loop 2
    invariant $v2@ == child.children@, $k2 <= $v2@.len(), $o2 ==> has_sep(tv(*child)), !$o2 ==> forall|i: int| 0 <= i < $k2 ==> !((#[trigger] tv(*child).kids[i]).0 is Separator),
    decreases $v2@.len() - $k2
//@head 2
    proof { tv_is(*child); assert(tv(*child).kids[$k2 as int].0 == ck($v2@[$k2 as int].0)); }
//@before 3
    let ghost (l3, r3, c3) = (literals@, $v3@, *ch);
    proof { assert(lviews(l3) == if has_sep(tv(*child)) { lits_to(t, ($k1 - 1) as nat).push((seq![c3], tv(*child))) } else { lits_to(t, ($k1 - 1) as nat) }); assert(r3.skip(0) =~= r3); assert(longer(c3, lviews(r3).take(0)) =~= seq![]); }
//@loop 3
    invariant $v3@.len() <= r3.len(), $v3@ == r3.skip(r3.len() - $v3@.len()), lviews(literals@) == lviews(l3) + longer(c3, lviews(r3).take(r3.len() - $v3@.len())),
    decreases $v3@.len()
//@head 3
    let ghost (d, l0) = ($v3@, literals@);
    proof { assert(d.remove(0) =~= d.skip(1)); assert(d.skip(1) =~= r3.skip(r3.len() - d.len() + 1)); }
//@tail 3
    proof {
        let j = r3.len() - d.len();
        assert(lviews(literals@) =~= lviews(l0).push(lviews(literals@).last()));
        assert(lviews(r3).take(j + 1) =~= lviews(r3).take(j).push(lviews(r3)[j]));
        assert(longer(c3, lviews(r3).take(j + 1)) =~= longer(c3, lviews(r3).take(j)).push((seq![c3] + lviews(r3)[j].0, lviews(r3)[j].1)));
    }
//@after 3
    proof { assert(lviews(r3).take(r3.len() as int) =~= lviews(r3)); }
//@end
//@fn gen/gen.rs write_dynamic -> r
    ensures
        r is Ok ==> separated(tv(*$2)) && sound(prog(tv(*$2))) && final($1).failed() == old($1).failed(), //@decides
        r is Ok ==> final($1).text() == show(param_text(old($1).text(), $3 as nat, $4@), $3 as nat, prog(tv(*$2))),
        r is Err ==> final($1).failed() || !separated(tv(*$2)) || !sound(prog(tv(*$2))), //@decides
    decreases height(tv(*$2)), 1int
//@start
    proof { tv_is(*$2); }
//@before 1
    proof { assert(indent1@ =~= ind(0)); }
//@loop 1
    invariant $k1 <= $v1, indent1@ == ind($k1 as nat),
    decreases $v1 - $k1
//@call codegen_trie 1
    proof { assert($1.text() == param_text(old($1).text(), $3 as nat, $4@)) by { reveal(param_text); } }
//@end
pub open spec fn oviews(s: Seq<(char, &T)>) -> Seq<(char, G)> { s.map_values(|x: (char, &T)| (x.0, tv(*x.1))) }
pub open spec fn dviews(s: Seq<&(Charlike, T)>) -> Seq<(CK, G)> { s.map_values(|x: &(Charlike, T)| (ck(x.0), tv(x.1))) }
pub proof fn slash_key()
    ensures "b\"/\" => {\n"@ == o0() + "b\""@ + seq!['/'] + "\" => {\n"@
{ reveal_strlit("b\"/\" => {\n"); reveal_strlit("b\""); reveal_strlit("\" => {\n"); assert("b\"/\" => {\n"@ =~= o0() + "b\""@ + seq!['/'] + "\" => {\n"@); }
pub open spec fn fview(o: Option<&(Charlike, T)>) -> Option<G> { match o { Some(c) => Some(tv(c.1)), None => None } }
/// a and what follows it
pub open spec fn after(s: Seq<char>, l: nat, a: Amb) -> Amb { Amb { s: s + a.s, l: l + a.l, t: a.t } }
/// one step of the matcher, with what follows it given by the tries that follow
pub open spec fn ended(o: Seq<char>, n: nat, d: Option<Place>) -> Seq<char> { if answers(d) { methods_text(o, n, d->0) } else { end_text(o, n) } }
pub open spec fn step(o: Seq<char>, n: nat, t: G) -> Seq<char> {
    let ch = t.kids;
    let d = dyns(t, ch.len());
    if ch.len() == 0 { ln(o, n, "return Ok(Match::NotFound);\n"@) }
    else if ch.len() == 1 {
        match ch[0].0 {
            CK::Separator => show(slash_text(ended(o, n, ch[0].1.data), n), n, prog(ch[0].1)),
            CK::Static(c) => show(literal_text(o, n, seq![c] + chain_text(ch[0].1)), n, prog(chain_end(ch[0].1))),
            CK::Dynamic(p) => show(param_text(ln(o, n, "let start = i;\n"@), n, p), n, prog(ch[0].1)),
        }
    } else if d.len() == 1 {
        let b = blank(ln(blank(o), n, "let start = i;\n"@));
        let a = amb(t);
        let b = if a.s.len() > 0 { tried_text(show(try_text(b, n, a.l, a.s), n + 3, prog(a.t)), n) }
            else { ln(ln(segment_arms(segment_text(b, n), n, seg_codes(t), lits(t).len()), n + 1, "_ => {},\n"@), n, "}\n"@) };
        show(param_text(b, n, d[0].0->Dynamic_0), n, prog(d[0].1))
    } else {
        ln(ln(next_arms(ln(ended(o, n, sep_data(t)), n, "match &path[i..i+1] {\n"@), n, next_codes(t), ch.len()), n, "    _ => return Ok(Match::NotFound),\n"@), n, "}\n"@)
    }
}
pub proof fn ends_show(o: Seq<char>, n: nat, d: Option<Place>, c: Code) ensures show(o, n, ends(d, c)) == show(ended(o, n, d), n, c) {}
pub proof fn step_show(t: G, o: Seq<char>, n: nat)
    requires sound(prog(t))
    ensures show(o, n, prog(t)) == step(if answers(t.data) { methods_text(o, n, t.data->0) } else { o }, n, t)
{
    hide(prog); hide(body); hide(sub); hide(param); hide(sound); hide(methods_text); hide(ended);
    let ch = t.kids;
    let d = dyns(t, ch.len());
    bodies(t);
    prog_is(t);
    step_sound(t);
    let b = if answers(t.data) { methods_text(o, n, t.data->0) } else { o };
    assert(show(o, n, prog(t)) == show(b, n, body(t)));
    let p = param(t, d[0].0, d[0].1);
    if ch.len() == 1 {
        match ch[0].0 {
            CK::Separator => { ends_show(b, n, ch[0].1.data, Code::Slash(Box::new(prog(ch[0].1)))); }
            CK::Static(c) => {}
            CK::Dynamic(_) => { let q = Code::Param(ch[0].0->Dynamic_0, Box::new(prog(ch[0].1))); assert(show(b, n, body(t)) == show(ln(b, n, "let start = i;\n"@), n, q)); }
        }
    } else if ch.len() > 1 && d.len() == 1 {
        let x = blank(ln(blank(b), n, "let start = i;\n"@));
        if amb(t).s.len() > 0 {
            assert(show(b, n, body(t)) == show(x, n, try_of(t)));
            let y = tried_text(show(try_text(x, n, amb(t).l, amb(t).s), n + 3, prog(amb(t).t)), n);
            assert(show(x, n, try_of(t)) == show(y, n, p));
            assert(show(y, n, p) == show(param_text(y, n, d[0].0->Dynamic_0), n, prog(d[0].1)));
        } else {
            assert(show(b, n, body(t)) == show(x, n, arms_of(t)));
            let y = ln(ln(segment_arms(segment_text(x, n), n, seg_codes(t), lits(t).len()), n + 1, "_ => {},\n"@), n, "}\n"@);
            assert(show(x, n, arms_of(t)) == show(y, n, p));
            assert(show(y, n, p) == show(param_text(y, n, d[0].0->Dynamic_0), n, prog(d[0].1)));
        }
    } else if ch.len() > 1 && d.len() == 0 { ends_show(b, n, sep_data(t), Code::Next(next_codes(t))); }
}
pub proof fn blen_long(s: Seq<char>)
    ensures blen(s) >= s.len()
    decreases s.len()
{ if s.len() > 0 { blen_long(s.drop_last()); } }
pub proof fn no_arms(n: nat)
    ensures
        forall|o: Seq<char>, a: Seq<(Seq<char>, Code)>| #[trigger] segment_arms(o, n, a, 0) == o,
        forall|o: Seq<char>, a: Seq<(char, Code)>| #[trigger] next_arms(o, n, a, 0) == o,
{}
pub proof fn segment_arm(o: Seq<char>, n: nat, a: Seq<(Seq<char>, Code)>, k: nat)
    requires k < a.len()
    ensures segment_arms(o, n, a, k + 1) == ln(show(segment_arms(o, n, a, k) + (o0() + ind(n + 1) + "b\""@ + a[k as int].0 + "\" => {\n"@) + (o0() + ind(n + 1) + "    i += "@ + digits(blen(a[k as int].0)) + ";\n"@), n + 2, a[k as int].1), n + 1, "},\n"@)
{}
pub proof fn next_arm(o: Seq<char>, n: nat, a: Seq<(char, Code)>, k: nat)
    requires k < a.len()
    ensures next_arms(o, n, a, k + 1) == ln(show(ln(next_arms(o, n, a, k) + (o0() + ind(n + 1) + "b\""@ + seq![a[k as int].0] + "\" => {\n"@), n + 1, "    i += 1;\n"@), n + 2, a[k as int].1), n + 1, "},\n"@)
{}
/// the text before what depends on the children
pub open spec fn based(o: Seq<char>, n: nat, t: G) -> Seq<char> { if answers(t.data) { methods_text(o, n, t.data->0) } else { o } }
// ---- the cases of a trie: when it is sound, and its text
pub proof fn case_none(t: G, o: Seq<char>, n: nat)
    requires t.kids.len() == 0
    ensures sound(prog(t)), show(o, n, prog(t)) == ln(if answers(t.data) { methods_text(o, n, t.data->0) } else { o }, n, "return Ok(Match::NotFound);\n"@)
{ step_sound(t); step_show(t, o, n); }
pub proof fn case_slash(t: G, o: Seq<char>, n: nat)
    requires separated(t)
    ensures
        sound(prog(t)) == sound(prog(t.kids[0].1)), height(t.kids[0].1) < height(t),
        sound(prog(t)) ==> show(o, n, prog(t)) == show(slash_text(ended(based(o, n, t), n, t.kids[0].1.data), n), n, prog(t.kids[0].1)),
{ step_sound(t); kids_low(t); if sound(prog(t)) { step_show(t, o, n); } }
pub proof fn case_literal(t: G, o: Seq<char>, n: nat, s: Seq<char>)
    requires single(t), s == seq![only_char(t)] + chain_text(t.kids[0].1)
    ensures
        sound(prog(t)) == sound(prog(chain_end(t.kids[0].1))), height(chain_end(t.kids[0].1)) < height(t),
        sound(prog(t)) ==> show(o, n, prog(t)) == show(literal_text(based(o, n, t), n, s), n, prog(chain_end(t.kids[0].1))),
{ step_sound(t); kids_low(t); assert(height(t.kids[0].1) < height(t)); chain_low(t.kids[0].1); if sound(prog(t)) { step_show(t, o, n); } }
pub proof fn case_param(t: G, o: Seq<char>, n: nat, p: Seq<char>)
    requires t.kids.len() == 1, t.kids[0].0 == CK::Dynamic(p)
    ensures
        sound(prog(t)) == (separated(t.kids[0].1) && sound(prog(t.kids[0].1))), height(t.kids[0].1) < height(t),
        sound(prog(t)) ==> show(o, n, prog(t)) == show(param_text(ln(based(o, n, t), n, "let start = i;\n"@), n, p), n, prog(t.kids[0].1)),
{ step_sound(t); kids_low(t); if sound(prog(t)) { step_show(t, o, n); } }
pub proof fn case_clash(t: G)
    ensures
        t.kids.len() > 1 && dyns(t, t.kids.len()).len() > 1 ==> !sound(prog(t)),
        t.kids.len() > 1 && amb(t).s.len() > 0 ==> dyns(t, t.kids.len()).len() > 0,
        amb(t).s.len() > 0 ==> amb(t).l > 0,
        dyns(t, t.kids.len()).len() > 0 ==> its_dyn(t).0 is Dynamic,
{ step_sound(t); opts_low(t, t.kids.len()); amb_low(t); }
/// where the segment's start is remembered
pub open spec fn started(o: Seq<char>, n: nat, t: G) -> Seq<char> { blank(ln(blank(based(o, n, t)), n, "let start = i;\n"@)) }
/// a parameter among other children
pub open spec fn mixed(t: G) -> bool { t.kids.len() > 1 && dyns(t, t.kids.len()).len() == 1 }
pub open spec fn its_dyn(t: G) -> (CK, G) { dyns(t, t.kids.len())[0] }
pub open spec fn dyn_sound(t: G) -> bool { separated(its_dyn(t).1) && sound(prog(its_dyn(t).1)) }
pub proof fn case_try(t: G, o: Seq<char>, n: nat)
    requires mixed(t), amb(t).s.len() > 0
    ensures
        sound(prog(t)) == (dyn_sound(t) && sound(prog(amb(t).t))), height(amb(t).t) < height(t), height(its_dyn(t).1) < height(t), its_dyn(t).0 is Dynamic,
        sound(prog(t)) ==> show(o, n, prog(t)) == show(param_text(tried_text(show(try_text(started(o, n, t), n, amb(t).l, amb(t).s), n + 3, prog(amb(t).t)), n), n, its_dyn(t).0->Dynamic_0), n, prog(its_dyn(t).1)),
{ step_sound(t); amb_low(t); opts_low(t, t.kids.len()); assert(its_dyn(t) == dyns(t, t.kids.len())[0]); if sound(prog(t)) { step_show(t, o, n); } }
/// the whole segments, and the end of the match on them
pub open spec fn segments_text(o: Seq<char>, n: nat, t: G) -> Seq<char> { ln(ln(segment_arms(segment_text(started(o, n, t), n), n, seg_codes(t), seg_codes(t).len()), n + 1, "_ => {},\n"@), n, "}\n"@) }
pub proof fn case_segments(t: G, o: Seq<char>, n: nat)
    requires segments_in(t)
    ensures
        sound(prog(t)) == (dyn_sound(t) && sounds(seg_codes(t))), height(its_dyn(t).1) < height(t), its_dyn(t).0 is Dynamic, seg_codes(t).len() == lits(t).len(),
        sound(prog(t)) ==> show(o, n, prog(t)) == show(param_text(segments_text(o, n, t), n, its_dyn(t).0->Dynamic_0), n, prog(its_dyn(t).1)),
{ step_sound(t); opts_low(t, t.kids.len()); assert(its_dyn(t) == dyns(t, t.kids.len())[0]); if sound(prog(t)) { step_show(t, o, n); } }
pub open spec fn arms_before(o: Seq<char>, n: nat, t: G) -> Seq<char> { ln(ended(based(o, n, t), n, sep_data(t)), n, "match &path[i..i+1] {\n"@) }
/// all of the arms
pub proof fn next_done(t: G, o: Seq<char>, n: nat)
    requires arms_in(t), forall|i: int| 0 <= i < t.kids.len() ==> sound((#[trigger] next_codes(t)[i]).1)
    ensures
        sound(prog(t)),
        show(o, n, prog(t)) == ln(ln(next_arms(arms_before(o, n, t), n, next_codes(t), t.kids.len()), n, "    _ => return Ok(Match::NotFound),\n"@), n, "}\n"@),
{ step_sound(t); sound_arms_of(next_codes(t)); step_show(t, o, n); }
pub proof fn blen_one(s: Seq<char>, c: char)
    requires s.len() > 0
    ensures blen(s) > 0
{ blen_long(s); }
//@fn gen/gen.rs codegen_trie -> r
//@split
    ensures
        r is Ok ==> sound(prog(tv(*$2))) && final($1).failed() == old($1).failed(), //@decides
        r is Ok ==> final($1).text() == show(old($1).text(), $3 as nat, prog(tv(*$2))),
        r is Err ==> final($1).failed() || !sound(prog(tv(*$2))), //@decides
    decreases height(tv(*$2)), 0int
//@start
    hide(show); hide(prog); hide(body); hide(sound); hide(sounds); hide(sound_arms); hide(sub); hide(methods_text); hide(digits); hide(blen); hide(height); hide(tallest); hide(lits); hide(lits_to); hide(seg_codes); hide(next_codes); hide(segment_arms); hide(next_arms); hide(copies); hide(based); hide(started); hide(ended); hide(segments_text); hide(arms_before); hide(dyn_sound); hide(its_dyn); hide(separated);
    let ghost e0 = *$2;
    let ghost t0 = tv(e0);
    let ghost n = $3 as nat;
    let ghost f0 = $1.failed();
    let ghost o = $1.text();
    let ghost b = based(o, n, t0);
    let ghost len = t0.kids.len();
    proof { reveal_strlit(""); assert(""@ =~= o0()); }
    proof { tv_top(e0); case_clash(t0); if len == 0 { case_none(t0, o, n); } else { tv_top(e0.children@[0].1); } }
//@before 1
    proof { ind_more(0); assert(indent1@ =~= ind(0)); }
//@loop 1
    invariant $k1 <= $v1, indent1@ == ind($k1 as nat),
    decreases $v1 - $k1
//@head 1
    proof { ind_more($k1 as nat); }
//@after 1
    proof { ind_more(n); }
//@before 2
    let ghost (c0, first) = (*ch, tv(*child));
    proof { assert(unambiguous@ =~= seq![c0]); assert(unambiguous@ + chain_text(first) =~= seq![c0] + chain_text(first)); }
//@loop 2
    invariant_except_break unambiguous@ + chain_text(tv(*child)) == seq![c0] + chain_text(first), chain_end(tv(*child)) == chain_end(first),
    ensures unambiguous@ == seq![c0] + chain_text(first), tv(*child) == chain_end(first),
    decreases height(tv(*child))
//@head 2
    let ghost (u, k) = (unambiguous@, tv(*child));
    proof {
        tv_is(*child);
        kids_low(k);
        if single(k) { assert(u + chain_text(k) =~= u.push(only_char(k)) + chain_text(k.kids[0].1)); assert(height(k.kids[0].1) < height(k)); }
        else { assert(u + chain_text(k) =~= u); }
    }
//@loop 3
    invariant e0 == *$2, t0 == tv(e0), $v3@ == e0.children@, $k3 <= $v3@.len(), dviews($o3@) == dyns(t0, $k3 as nat),
    decreases $v3@.len() - $k3
//@head 3
    proof { tv_is(e0); }
    let ghost o3 = $o3@;
//@tail 3
    proof { assert(dviews($o3@) =~= dyns(t0, $k3 as nat)); }
//@after 3
    proof { assert(dviews($o3@).len() == $o3@.len()); if $o3@.len() > 0 { assert(dviews($o3@)[0] == (ck($o3@[0].0), tv($o3@[0].1))); assert(its_dyn(t0) == (ck($o3@[0].0), tv($o3@[0].1))) by { reveal(its_dyn); } } }
//@before 4
    proof { assert(after(s@, l as nat, amb(t0)).s =~= amb(t0).s); }
//@loop 4
    invariant_except_break after(s@, l as nat, amb(tv(*t))) == amb(t0), height(tv(*t)) <= height(t0),
    ensures amb(t0) == (Amb { s: s@, l: l as nat, t: tv(*t) }),
    decreases height(tv(*t))
//@head 4
    let ghost (s0, t1) = (s@, tv(*t));
    let ghost os = opts(t1, t1.kids.len());
    proof {
        tv_is(*t);
        opts_low(t1, t1.kids.len());
        assert(s0 + seq![] =~= s0);
        if os.len() == 1 { assert(s0 + (seq![os[0].0] + amb(os[0].1).s) =~= s0.push(os[0].0) + amb(os[0].1).s); }
    }
//@loop 5
    invariant $v5@ == t.children@, $k5 <= $v5@.len(), t1 == tv(*t), $o5 ==> has_sep(t1), !$o5 ==> forall|i: int| 0 <= i < $k5 ==> !((#[trigger] t1.kids[i]).0 is Separator),
    decreases $v5@.len() - $k5
//@head 5
    proof { tv_is(*t); assert(t1.kids[$k5 as int].0 == ck($v5@[$k5 as int].0)); }
//@loop 6
    invariant t1 == tv(*t), !has_sep(t1), $v6@ == t.children@, $k6 <= $v6@.len(), oviews($o6@) == opts(t1, $k6 as nat),
    decreases $v6@.len() - $k6
//@head 6
    proof { tv_is(*t); assert(!(t1.kids[$k6 as int].0 is Separator)); }
//@tail 6
    proof { assert(oviews($o6@) =~= opts(t1, $k6 as nat)); }
//@after 6
    proof { if $o6@.len() == 1 { assert(oviews($o6@)[0] == os[0]); } }
//@call codegen_trie 1
    proof {
        assert($1.text() == slash_text(ended(b, n, t0.kids[0].1.data), n)) by { reveal(slash_text); reveal(end_text); reveal(ended); reveal(based); }
        assert(separated(t0)) by { reveal(separated); }
        case_slash(t0, o, n);
    }
//@after 2
    proof { blen_long(seq![c0] + chain_text(first)); }
//@call codegen_trie 2
    proof {
        assert($1.text() == literal_text(b, n, unambiguous@)) by { reveal(literal_text); reveal(based); }
        case_literal(t0, o, n, unambiguous@);
    }
//@call write_dynamic 1
    proof {
        assert($1.text() == ln(b, n, "let start = i;\n"@)) by { reveal(based); }
        case_param(t0, o, n, t0.kids[0].0->Dynamic_0);
    }
//@call codegen_trie 3
    proof {
        assert($1.text() == try_text(started(o, n, t0), n, amb(t0).l, amb(t0).s)) by { reveal(try_text); reveal(started); reveal(based); }
        case_try(t0, o, n);
    }
//@call write_dynamic 2
    proof {
        assert($1.text() == tried_text(show(try_text(started(o, n, t0), n, amb(t0).l, amb(t0).s), n + 3, prog(amb(t0).t)), n)) by { reveal(tried_text); }
        reveal(dyn_sound); reveal(its_dyn);
    }
//@before 7
    proof { assert($1.text() == segment_text(started(o, n, t0), n)) by { reveal(segment_text); reveal(started); reveal(based); } }
    let ghost b7 = $1.text();
    let ghost ls = $v7@;
    let ghost cs = seg_codes(t0);
    proof { assert(ls.skip(0) =~= ls); no_arms(n); }
//@loop 7
    invariant
        e0 == *$2, t0 == tv(e0), indent1@ == ind(n), indent2@ == ind(n + 1), $3 == n, cs == seg_codes(t0), t0.kids.len() > 1, dyns(t0, t0.kids.len()).len() == 1, amb(t0).s.len() == 0, lviews(ls) == lits(t0), $v7@.len() <= ls.len(), $v7@ == ls.skip(ls.len() - $v7@.len()),
        $1.text() == segment_arms(b7, n, cs, (ls.len() - $v7@.len()) as nat), $1.failed() == f0,
        forall|i: int| 0 <= i < ls.len() - $v7@.len() ==> sound((#[trigger] cs[i]).1),
    decreases $v7@.len()
//@head 7
    let ghost d = $v7@;
    let ghost j = ls.len() - d.len();
    proof {
        assert(lviews(ls).len() == ls.len());
        seg_fact(t0, j);
        assert(d.remove(0) =~= ls.skip(j + 1));
        assert(d[0] == ls[j]);
        assert(lviews(ls)[j] == (d[0].0@, tv(*d[0].1)));
        assert(lits(t0)[j] == (d[0].0@, tv(*d[0].1)));
        assert(cs[j] == (d[0].0@, prog(tv(*d[0].1))));
        assert(cs.len() == ls.len());
        segment_arm(b7, n, cs, j as nat);
    }
//@after 7
    proof { assert(lviews(ls).len() == ls.len()); seg_done(t0); }
//@call write_dynamic 3
    proof {
        case_segments(t0, o, n);
        assert($1.text() == segments_text(o, n, t0)) by { reveal(segments_text); }
        reveal(dyn_sound); reveal(its_dyn);
    }
//@loop 8
    invariant e0 == *$2, t0 == tv(e0), $v8@ == e0.children@, $k8 <= $v8@.len(), fview($o8) == first_sep(t0, $k8 as nat),
    decreases $v8@.len() - $k8
//@head 8
    proof { tv_is(e0); }
//@after 8
    proof { match $o8 { Some(c) => { tv_top(c.1); } None => {} } }
    proof { if fview($o8) is Some { sep_stays(t0, $k8 as nat, len); } }
//@before 9
    proof { assert($1.text() == arms_before(o, n, t0)) by { reveal(end_text); reveal(ended); reveal(based); reveal(arms_before); } }
    let ghost b9 = $1.text();
    let ghost cs = next_codes(t0);
    proof { no_arms(n); }
//@loop 9
    invariant
        e0 == *$2, t0 == tv(e0), indent1@ == ind(n), indent2@ == ind(n + 1), $3 == n, cs == next_codes(t0), t0.kids.len() > 1, $v9@ == e0.children@, $k9 <= $v9@.len(), dyns(t0, t0.kids.len()).len() == 0,
        $1.text() == next_arms(b9, n, cs, $k9 as nat), $1.failed() == f0,
        forall|i: int| 0 <= i < $k9 ==> sound((#[trigger] cs[i]).1),
    decreases $v9@.len() - $k9
//@head 9
    proof {
        tv_is(e0);
        next_fact(t0, $k9 as int);
        slash_key();
        next_arm(b9, n, cs, $k9 as nat);
    }
//@after 9
    proof { next_done(t0, o, n); }
//@end
