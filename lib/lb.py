"""Per-configuration contracts: from a configuration (never from the generated
text) build the specification of its matcher, put it on the extracted generated
code and let Verus decide every obligation."""
from conf import *

PRELUDE = r'''
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unreachable_code, unused_parens, non_snake_case, unused_assignments)]
pub use vstd::prelude::*;
verus! {
// ---- trusted models of the library calls in generated code ----
pub open spec fn seg_end(p: Seq<u8>, i: int) -> int
    decreases p.len() - i
{ if i < 0 || i >= p.len() || p[i] == 47u8 { i } else { seg_end(p, i + 1) } }
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub open spec fn seg_start(p: Seq<u8>, a: int) -> bool { 0 <= a <= p.len() && (a == 0 || p[a - 1] == 47u8) }
pub open spec fn seg_ok(p: Seq<u8>, a: int) -> bool { utf8_ok(p.subrange(a, seg_end(p, a))) }
pub open spec fn text_path(p: Seq<u8>) -> bool { forall|a: int| seg_start(p, a) ==> #[trigger] seg_ok(p, a) }
pub uninterp spec fn parse_spec<T>(s: Seq<u8>) -> Option<T>;
pub uninterp spec fn show_spec<T>(t: T) -> Seq<u8>;
#[verifier::external_body]
pub struct Error { x: u8 }
pub uninterp spec fn parse_error<T>(param: Seq<char>, s: Seq<u8>) -> Error;
#[verifier::external_body]
pub fn utf8_text(path: &[u8], a: usize, b: usize) -> (r: Ghost<Seq<u8>>)
    requires a <= b <= path.len(), // slice in bounds
        utf8_ok(path@.subrange(a as int, b as int)), // decoding succeeds
    ensures r@ == path@.subrange(a as int, b as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_text<T>(t: Ghost<Seq<u8>>, param: &str) -> (r: Result<T, Error>)
    ensures r == (match parse_spec::<T>(t@) { Some(v) => Ok::<T, Error>(v), None => Err(parse_error::<T>(param@, t@)) }),
{ unimplemented!() }
pub fn slice_ok(path: &[u8], a: usize, b: usize)
    requires a <= b <= path.len(), // slice in bounds
{ }
pub proof fn seg_hint(p: Seq<u8>, a: int)
    ensures seg_ok(p, a) == utf8_ok(p.subrange(a, seg_end(p, a))),
{ }
#[verifier::external_body]
pub struct Text { x: String }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Text {
    #[verifier::external_body]
    pub fn new() -> (r: Text) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn push_lit(&mut self, s: Ghost<Seq<u8>>) ensures final(self)@ == old(self)@ + s@, { unimplemented!() }
    #[verifier::external_body]
    pub fn push_shown<T>(&mut self, t: &T) ensures final(self)@ == old(self)@ + show_spec(*t), { unimplemented!() }
}
pub proof fn seg_end_at(p: Seq<u8>, s: int, e: int)
    requires 0 <= s <= e <= p.len(), forall|k: int| s <= k < e ==> p[k] != 47u8, e == p.len() || p[e] == 47u8,
    ensures seg_end(p, s) == e,
    decreases e - s,
{ if s < e { seg_end_at(p, s + 1, e); } }
'''

BUILTIN = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "String"}


def bytes_of(s):
    return s.encode("utf-8")


def opaque_decl(types):
    return "".join("#[verifier::external_body]\npub struct %s { x: u8 }\n" % t for t in sorted(set(types) - BUILTIN - {"Option"}))


class Spec:
    def __init__(self, root, k):
        self.root, self.k = root, k
        self.out = []
        self.lits = {}
        self.known = has_known(root)

    def lit(self, s):
        if s not in self.lits:
            n = len(self.lits)
            b = bytes_of(s)
            self.lits[s] = "lseg_%d" % n
            conj = ["0 <= i && i + %d <= p.len()" % len(b)] + ["p[i + %d] == %du8" % (j, c) for j, c in enumerate(b)]
            conj.append("(i + %d == p.len() || p[i + %d] == 47u8)" % (len(b), len(b)))
            self.out.append("pub open spec fn lseg_%d(p: Seq<u8>, i: int) -> bool { %s }" % (n, " && ".join(conj)))
        return self.lits[s]

    def params(self, n):
        return ["%s: %s" % ("a%d" % j, t) for j, (_, t) in enumerate(n.dynamics())]

    def args(self, n):
        return ["a%d" % j for j in range(len(n.dynamics()))]

    def action_expr(self, n, r, argnames=None):
        argnames = argnames or self.args(n)
        dyn = [d[0] for d in n.dynamics()]
        fields = []
        for f, t, o in action_fields(n, r):
            fields.append("%s: None" % f if o else "%s: %s" % (f, argnames[dyn.index(f)]))
        pre = "".join(snake(m) + "::" for m in r["mods"])
        e = "%s%s { %s }" % (pre, caps(r["name"]), ", ".join(fields))
        e = "%sRoute::%s(%s)" % (pre, caps(r["name"]), e)
        for j in range(len(r["mods"]) - 1, -1, -1):
            pre = "".join(snake(m) + "::" for m in r["mods"][:j])
            e = "%sRoute::%s(%s)" % (pre, caps(r["mods"][j]), e)
        return e

    def aid_pattern(self, r):
        pre = "".join(snake(m) + "::" for m in r["mods"])
        e = "%sRoute::%s(_)" % (pre, caps(r["name"]))
        for j in range(len(r["mods"]) - 1, -1, -1):
            pre = "".join(snake(m) + "::" for m in r["mods"][:j])
            e = "%sRoute::%s(%s)" % (pre, caps(r["mods"][j]), e)
        return e

    def nodes(self, mode):
        """mode: "n" ideal, "x" as built (known deviations)"""
        T = "Result<Match<Route>, Error>"
        for n in self.root.all():
            ps = ", ".join(["p: Seq<u8>", "m: Seq<u8>", "i: int"] + self.params(n))
            ar = self.args(n)
            if mode == "n" and n.res:
                e = "Ok(Match::NotAllowed)"
                for r in reversed(n.res):
                    b = r["m"].encode()
                    c = " && ".join(["m.len() == %d" % len(b)] + ["m[%d] == %du8" % (j, x) for j, x in enumerate(b)])
                    e = "if %s { Ok(Match::%s(%s)) } else { %s }" % (c, "Redirect" if r["redir"] else "Route", self.action_expr(n, r), e)
                self.out.append("pub open spec fn m%d(%s) -> %s { %s }" % (n.id, ", ".join(["m: Seq<u8>"] + self.params(n)), T, e))
            hit = "m%d(%s)" % (n.id, ", ".join(["m"] + ar)) if n.res else "Ok(Match::NotFound)"
            # after the segment's text: end, or a separator
            self.out.append("pub open spec fn %ss%d(%s) -> %s { if i >= p.len() { %s } else { %sn%d(%s) } }" % (
                mode, n.id, ps, T, hit, mode, n.id, ", ".join(["p", "m", "i + 1"] + ar)))
            # after the separator
            e = "Ok(Match::NotFound)"
            if n.dyn:
                nm, ty, d = n.dyn
                e = ("{ let t = p.subrange(i, seg_end(p, i)); match parse_spec::<%s>(t) { None => Err(parse_error::<%s>(\"%s\"@, t)), "
                     "Some(v) => %ss%d(%s) } }") % (ty, ty, nm, mode, d.id, ", ".join(["p", "m", "seg_end(p, i)"] + ar + ["v"]))
            dyn_e = e
            kf = lcp_literal(n) if mode == "x" else None
            if kf and kf[1]:
                e = "Ok(Match::NotFound)"
            for l in sorted(n.lits, reverse=True):
                e = "if %s(p, i) { %ss%d(%s) } else { %s }" % (
                    self.lit(l), mode, n.lits[l].id, ", ".join(["p", "m", "i + %d" % len(bytes_of(l))] + ar), e)
            if kf:
                b = bytes_of(kf[0])
                if kf[1]:
                    e = "if %s { %s } else { %s }" % (self.prefix_cond(b), e, dyn_e)
                else:
                    e = dyn_e
            if not n.dyn:
                e = "if i >= p.len() { Ok(Match::NotFound) } else { %s }" % e
            if n.res:
                e = "if i >= p.len() { %s } else { %s }" % (hit, e)
            self.out.append("pub open spec fn %sn%d(%s) -> %s { %s }" % (mode, n.id, ps, T, e))

    def prefix_cond(self, b):
        return " && ".join(["i + %d <= p.len()" % len(b)] + ["p[i + %d] == %du8" % (j, c) for j, c in enumerate(b)])

    def dev(self):
        """does the walk along p meet a place where a known finding applies?"""
        for n in self.root.all():
            self.out.append("pub open spec fn ds%d(p: Seq<u8>, i: int) -> bool { if i >= p.len() { false } else { dn%d(p, i + 1) } }" % (n.id, n.id))
            kf = lcp_literal(n)
            e = "ds%d(p, seg_end(p, i))" % n.dyn[2].id if n.dyn else "false"
            if kf and kf[1]:
                e = "if %s { true } else { %s }" % (self.prefix_cond(bytes_of(kf[0])), e)
            for l in sorted(n.lits, reverse=True):
                sub = "ds%d(p, i + %d)" % (n.lits[l].id, len(bytes_of(l)))
                e = "if %s(p, i) { %s } else { %s }" % (self.lit(l), "true" if kf and not kf[1] else sub, e)
            self.out.append("pub open spec fn dn%d(p: Seq<u8>, i: int) -> bool { %s }" % (n.id, e))
        self.out.append("pub open spec fn dev(p: Seq<u8>) -> bool { dn0(p, i0(p)) }")

    def path_specs(self):
        mt = module_tree(self.root)

        def go(m, mods):
            pre = "".join(x + "::" for x in mods)
            spec = "".join(x + "__" for x in mods)
            arms = []
            for a in sorted(m["actions"]):
                n, r = m["actions"][a]
                c = caps(a)
                e, lit = "Seq::<u8>::empty()", b"/"
                for j, s in enumerate(n.segs):
                    if j:
                        lit += b"/"
                    if isinstance(s, str):
                        lit += bytes_of(s)
                    else:
                        e += " + seq![%s] + show_spec(x.%s)" % (", ".join("%du8" % b for b in lit), s[0])
                        lit = b""
                if lit:
                    e += " + seq![%s]" % ", ".join("%du8" % b for b in lit)
                self.out.append("pub open spec fn path__%s%s(x: %s%s) -> Seq<u8> { %s }" % (spec, c, pre, c, e))
                arms.append("%sRoute::%s(x) => path__%s%s(x)," % (pre, c, spec, c))
            for k in sorted(m["mods"]):
                arms.append("%sRoute::%s(x) => path__%s%s__Route(x)," % (pre, caps(k), spec, snake(k)))
                go(m["mods"][k], mods + [snake(k)])
            self.out.append("pub open spec fn path__%sRoute(x: %sRoute) -> Seq<u8> { match x { %s } }" % (spec, pre, " ".join(arms)))
        go(mt, [])

    def round_trips(self):
        names = []
        for n in self.root.all():
            for r in n.res:
                if r["redir"]:
                    continue
                pre = "".join(snake(m) + "::" for m in r["mods"])
                spec = "".join(snake(m) + "__" for m in r["mods"])
                c = caps(r["name"])
                req, body, start = [], [], "1int"
                ar = []
                cur = self.root
                body.append("assert(p[0] == 47u8);")
                body.append("assert(i0(p) == 1);")
                node_asserts = []
                for j, s in enumerate(n.segs):
                    if j:
                        start = "e%d + 1" % (j - 1)
                    body.append("let s%d = %s;" % (j, start))
                    if isinstance(s, str):
                        b = bytes_of(s)
                        body.append("let e%d = s%d + %d;" % (j, j, len(b)))
                        for q, ch in enumerate(b):
                            body.append("assert(p[s%d + %d] == %du8);" % (j, q, ch))
                        if j + 1 < len(n.segs):
                            body.append("assert(p[e%d] == 47u8);" % j)
                        else:
                            body.append("assert(e%d == p.len());" % j)
                        body.append("assert(%s(p, s%d));" % (self.lit(s), j))
                        nxt = cur.lits[s]
                    else:
                        f = "x.%s" % s[0]
                        body.append("let t%d = show_spec(%s);" % (j, f))
                        body.append("let e%d = s%d + t%d.len();" % (j, j, j))
                        body.append("assert(e%d <= p.len());" % j)
                        body.append("assert(p.subrange(s%d, e%d) =~= t%d);" % (j, j, j))
                        body.append("assert forall|k: int| s%d <= k < e%d implies p[k] != 47u8 by { assert(p.subrange(s%d, e%d)[k - s%d] == p[k]); }" % (j, j, j, j, j))
                        if j + 1 < len(n.segs):
                            body.append("assert(p[e%d] == 47u8);" % j)
                        else:
                            body.append("assert(e%d == p.len());" % j)
                        body.append("seg_end_at(p, s%d, e%d);" % (j, j))
                        req.append("show_spec(%s).len() > 0" % f)
                        req.append("forall|k: int| 0 <= k < show_spec(%s).len() ==> show_spec(%s)[k] != 47u8" % (f, f))
                        req.append("parse_spec::<%s>(show_spec(%s)) == Some(%s)" % (s[1], f, f))
                        for l in sorted(cur.lits):
                            b = bytes_of(l)
                            req.append("show_spec(%s) != seq![%s]" % (f, ", ".join("%du8" % x for x in b)))
                            # not the sibling literal
                            body.append("if %s(p, s%d) { assert(forall|k: int| s%d <= k < s%d + %d ==> p[k] != 47u8); seg_end_at(p, s%d, s%d + %d); assert(t%d =~= seq![%s]); assert(false); }" % (
                                self.lit(l), j, j, j, len(b), j, j, len(b), j, ", ".join("%du8" % x for x in b)))
                        ar = ar + [f]
                        nxt = cur.dyn[2]
                    node_asserts.append((cur, nxt, j, list(ar)))
                    cur = nxt
                # walk backwards: the matcher's answer at each point
                goal = "Ok::<Match<Route>, Error>(Match::Route(%s))" % self.wrap(r, "x")
                tail = []
                if n.segs:
                    tail.append("assert(ns%d(%s) == %s);" % (n.id, ", ".join(["p", "m", "e%d" % (len(n.segs) - 1)] + ["x.%s" % d[0] for d in n.dynamics()]), goal))
                for cur, nxt, j, a in reversed(node_asserts):
                    ca = a if len(cur.dynamics()) == len(a) else a[:len(cur.dynamics())]
                    tail.append("assert(nn%d(%s) == %s);" % (cur.id, ", ".join(["p", "m", "s%d" % j] + ca), goal))
                    if j:
                        tail.append("assert(ns%d(%s) == %s);" % (cur.id, ", ".join(["p", "m", "e%d" % (j - 1)] + ca), goal))
                for p in n.q + [tuple(z) for z in r["q"]]:
                    req.append("x.%s is None" % p[0])
                if self.known:
                    req.append("!dev(path__%s%s(x))" % (spec, c))
                name = "round_trip__%s%s" % (spec, c)
                names.append(name)
                self.out.append("pub proof fn %s(x: %s%s, m: Seq<u8>)\nrequires m == seq![%s],%s\nensures ideal(path__%s%s(x), m) == %s, //@C05\n{ let p = path__%s%s(x);\n%s\n%s\n}" % (
                    name, pre, c, ", ".join("%du8" % b for b in r["m"].encode()), "".join("\n" + q + "," for q in req),
                    spec, c, goal, spec, c, "\n".join(body), "\n".join(tail)))
        return names

    def wrap(self, r, e):
        for j in range(len(r["mods"]), -1, -1):
            pre = "".join(snake(m) + "::" for m in r["mods"][:j])
            v = caps(r["name"]) if j == len(r["mods"]) else caps(r["mods"][j])
            e = "%sRoute::%s(%s)" % (pre, v, e)
        return e

    def build(self, want):
        o = self.out
        o.append("pub open spec fn i0(p: Seq<u8>) -> int { if p.len() > 0 && p[0] == 47u8 { 1 } else { 0 } }")
        self.nodes("n")
        o.append("pub open spec fn ideal(p: Seq<u8>, m: Seq<u8>) -> Result<Match<Route>, Error> { nn0(p, m, i0(p)) }")
        if self.known:
            self.nodes("x")
            o.append("pub open spec fn built(p: Seq<u8>, m: Seq<u8>) -> Result<Match<Route>, Error> { xn0(p, m, i0(p)) }")
            self.dev()
        self.path_specs()
        acts = []
        for n in self.root.all():
            for r in n.res:
                if self.aid_pattern(r) not in acts:
                    acts.append(self.aid_pattern(r))
        o.append("pub open spec fn aid(r: Route) -> int { match r { %s } }" % " ".join("%s => %d," % (a, j) for j, a in enumerate(acts)))
        o.append("""
pub open spec fn kind(r: Result<Match<Route>, Error>) -> int { match r { Err(_) => 0, Ok(Match::NotFound) => 1, Ok(Match::NotAllowed) => 2, Ok(Match::Route(_)) => 3, Ok(Match::Redirect(_)) => 4 } }
pub open spec fn act(r: Result<Match<Route>, Error>) -> int { match r { Ok(Match::Route(x)) => aid(x), Ok(Match::Redirect(x)) => aid(x), _ => -1 } }
// a declared resource is reached, as declared
pub open spec fn reached(r: Result<Match<Route>, Error>, s: Result<Match<Route>, Error>) -> bool { kind(s) >= 3 ==> kind(r) == kind(s) && act(r) == act(s) }
// everything else is classified
pub open spec fn classified(r: Result<Match<Route>, Error>, s: Result<Match<Route>, Error>) -> bool { (kind(s) == 1 <==> kind(r) == 1) && (kind(s) == 2 <==> kind(r) == 2) && (kind(r) >= 3 ==> kind(s) >= 3) }
// parameters, and errors about parameters
pub open spec fn captured(r: Result<Match<Route>, Error>, s: Result<Match<Route>, Error>) -> bool { (kind(s) == 0 <==> kind(r) == 0) && (kind(s) == 0 ==> r == s) && (kind(s) >= 3 && kind(r) == kind(s) && act(r) == act(s) ==> r == s) }
""")
        self.rt = self.round_trips() if "C05" in want else []
        return "\n".join(o)

    def ensures(self, want):
        out = []
        for p, f in (("C01", "reached"), ("C02", "classified"), ("C04", "captured")):
            if p in want:
                e = "%s(r, ideal(path@, method@))" % f
                if self.known:
                    e += " || (dev(path@) && %s(r, built(path@, method@)))" % f
                out.append("    %s, //@%s" % (e, p))
        return "\n".join(out)


def emit(k, root, ex, want):
    """Verus text of one configuration; ex: what xtract returned"""
    sp = Spec(root, k)
    spec = sp.build(want)
    ens = sp.ensures(want)
    fn = """//@match_route c%d
pub fn match_route(path: &[u8], method: &[u8]) -> (r: Result<Match<Route>, Error>)
requires path.len() <= isize::MAX as usize, text_path(path@),
%s
{
%s}
//@end
""" % (k, ("ensures\n" + ens) if ens else "", ex["body"])
    # vacuity guard: must fail
    cover = """pub proof fn cover_c%d(p: Seq<u8>, m: Seq<u8>) requires p.len() <= isize::MAX as usize, text_path(p), { assert(false); } //@cover
""" % k
    types = ex["types"]
    if "C05" not in want:
        # the path builders are not this check's concern
        import re
        types = re.sub(r"/\*@to_path.*?/\*@end@\*/", "", types, flags=re.S)
    return "pub mod c%d {\nuse crate::*;\n%s\n%s\n%s\n%s\n%s}\n" % (k, types, ex["lits"], spec, fn, cover)
