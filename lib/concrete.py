"""The real generated code, compiled and run, against an executable reading of
the same specification.  Used to find and replay failing inputs (and as a
bounded supplement, labelled so)."""
import os, random, subprocess, concurrent.futures as cf
from conf import *

TYPES_RS = r'''
pub mod types {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct Uuid(pub String);
    impl std::str::FromStr for Uuid {
        type Err = String;
        fn from_str(s: &str) -> Result<Uuid, String> {
            if !s.is_empty() && s.bytes().all(|c| (b'0'..=b'9').contains(&c) || (b'a'..=b'f').contains(&c)) { Ok(Uuid(s.to_string())) } else { Err("bad".to_string()) }
        }
    }
    impl std::fmt::Display for Uuid { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
}
'''

INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
       "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def dbg_str(s):
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\r":
            out.append("\\r")
        elif c == "\0":
            out.append("\\0")
        else:
            out.append(c)
    return "".join(out) + '"'


def parse_dbg(t, s):
    """Debug text of s parsed as type t, or None"""
    if t == "String":
        return dbg_str(s)
    if t == "bool":
        return s if s in ("true", "false") else None
    if t == "Uuid":
        return "Uuid(%s)" % dbg_str(s) if s and all(c in "0123456789abcdef" for c in s) else None
    lo, hi = INT[t]
    b = s
    if b[:1] == "+" or (b[:1] == "-" and lo < 0):
        b = b[1:]
    if not b or not all(c in "0123456789" for c in b):
        return None
    v = int(b) * (-1 if s[0] == "-" else 1)
    return str(v) if lo <= v <= hi else None


def action_dbg(n, r, vals):
    dyn = [d[0] for d in n.dynamics()]
    fields = action_fields(n, r)
    c = caps(r["name"])
    # fields print in the order of the action type's declaration; redirects borrow another's
    return c, {f: ("None" if o else vals[dyn.index(f)]) for f, t, o in fields}


class Oracle:
    def __init__(self, config):
        self.root = tree(config)
        self.order = {}
        for n in self.root.all():
            for r in n.res:
                if not r["redir"]:
                    self.order[(tuple(r["mods"]), r["name"])] = [f for f, _, _ in action_fields(n, r)]

    def show(self, n, r, vals):
        c, f = action_dbg(n, r, vals)
        order = self.order[(tuple(r["mods"]), r["name"])]
        e = c + (" { " + ", ".join("%s: %s" % (k, f[k]) for k in order) + " }" if order else "")
        e = "%s(%s)" % (c, e)
        for m in reversed(r["mods"]):
            e = "%s(%s)" % (caps(m), e)
        return e

    def answer(self, path, method, built=False):
        """-> (kind, text); built: as the known deviations have it.  Also says whether the walk met one."""
        dev = [False]
        i = 1 if path[:1] == b"/" else 0
        n, vals = self.root, []

        def hit(n):
            for r in n.res:
                if r["m"].encode() == method:
                    return ("redirect" if r["redir"] else "route", "Ok(Match::%s(%s))" % ("Redirect" if r["redir"] else "Route", self.show(n, r, vals)))
            return ("notallowed", "Ok(Match::NotAllowed)")
        NF = ("notfound", "Ok(Match::NotFound)")
        while True:
            # just after a separator
            if i >= len(path):
                if n.res:
                    return hit(n), dev[0]
                if not n.dyn:
                    return NF, dev[0]
            e = path.find(b"/", i)
            e = len(path) if e < 0 else e
            seg = path[i:e]
            kf = lcp_literal(n)
            nxt = None
            for l, c in n.lits.items():
                if l.encode() == seg:
                    nxt = c
            if kf:
                p = kf[0].encode()
                if kf[1] and path[i:].startswith(p) and nxt is None:
                    dev[0] = True
                    if built:
                        return NF, True
                if not kf[1] and nxt is not None:
                    dev[0] = True
                    if built:
                        nxt = None
            if nxt is None:
                if not n.dyn:
                    return NF, dev[0]
                nm, ty, nxt = n.dyn
                try:
                    v = parse_dbg(ty, seg.decode("utf-8"))
                except UnicodeDecodeError:
                    return ("panic", "panic"), dev[0]
                if v is None:
                    return ("err", "Err(param: %s" % dbg_str(nm)), dev[0]
                vals.append(v)
            n, i = nxt, e
            if i >= len(path):
                return (hit(n) if n.res else NF), dev[0]
            i += 1


SAMPLE = {"u32": ["7", "0", "4294967295", "+5"], "usize": ["3", "18446744073709551615"], "i64": ["-9", "12"], "bool": ["true", "false"],
          "Uuid": ["0af", "b"], "String": ["joe", "n", "x y", "\u00e9t\u00e9", "a"]}
BAD = {"u32": ["", "x", "4294967296", "-1", "1x"], "usize": ["", "-1", "q"], "i64": ["", "z"], "bool": ["", "True"], "Uuid": ["", "xyz"], "String": [""]}
METHS = [b"GET", b"POST", b"PUT", b"DELETE", b"get", b"", b"GETX", b"GE", b"PATCH", b"HEAD"]


def paths_for(config, rnd, limit=400):
    root = tree(config)
    out, seen = [], set()

    def add(b):
        if b not in seen:
            seen.add(b)
            out.append(b)
    for b in (b"", b"/", b"//", b"///", b"a", b"/a", b"/x", b"x/", b"/\xff", b"\xc3"):
        add(b)
    nodes = list(root.all())
    for n in nodes:
        def text(pick):
            segs = []
            for s in n.segs:
                segs.append(s.encode() if isinstance(s, str) else pick(s[1]).encode())
            return segs
        base = text(lambda t: SAMPLE[t][0])
        p = b"/" + b"/".join(base)
        for v in (p, p[1:], p + b"/", p + b"//", p + b"/x", p + b"x", p[:-1], b"/" + p, p + b"\xff", p + b"/7", p + b"/joe/7"):
            add(v)
        for l in list(n.lits)[:6]:
            for v in (l[:-1], l + "x", l + l, l.swapcase(), l[1:], l):
                add((p if n.segs else b"") + b"/" + v.encode())
                add((p if n.segs else b"") + b"/" + v.encode() + b"/")
                add((p if n.segs else b"") + b"/" + v.encode() + b"/edit")
        for _ in range(3):
            q = text(lambda t: rnd.choice(SAMPLE[t]))
            add(b"/" + b"/".join(q))
            q = text(lambda t: rnd.choice(SAMPLE[t] + BAD[t]))
            add(b"/" + b"/".join(q))
            add(b"/" + b"/".join(q) + b"/")
        if base:
            k = rnd.randrange(len(base))
            add(b"/" + b"/".join(base[:k] + [b""] + base[k + 1:]))
            add(b"/" + b"/".join(base[:k] + [base[k][:-1]] + base[k + 1:]))
            add(b"/" + b"/".join(base[:k] + [base[k] + b"s"] + base[k + 1:]))
            add(b"/" + b"/".join(base[:k] + [b"n\xff"] + base[k + 1:]))
            add(b"/" + b"/".join(base[:k] + base[k + 1:]))
    if len(out) > limit:
        head = out[:10]
        out = head + rnd.sample(out[10:], limit - 10)
    return out


def rust_bytes(b):
    return "b\"" + "".join("\\x%02x" % c for c in b) + "\""


VALS = {"u32": "7u32", "usize": "3usize", "i64": "-9i64", "bool": "true", "Uuid": "Uuid(\"0af\".to_string())", "String": "\"joe\".to_string()"}
VALTXT = {"u32": "7", "usize": "3", "i64": "-9", "bool": "true", "Uuid": "0af", "String": "joe"}


def to_path_cases(config, rnd):
    """[(action key, rust expression of the action, of its route, method, expected path, expected Debug of the match)]"""
    root = tree(config)
    orc = Oracle(config)
    out = []
    for n in root.all():
        for r in n.res:
            if r["redir"]:
                continue
            pre = "routes::" + "".join(snake(m) + "::" for m in r["mods"])
            fields = action_fields(n, r)
            c = caps(r["name"])
            # the j-th parameter gets the j-th value of its type, so that two of one type differ
            use = {}
            vals, exprs = [], {}
            for nm, ty in n.dynamics():
                opts = [s for s in SAMPLE[ty] if not s.startswith("+")]
                k = use.get(ty, 0)
                use[ty] = k + 1
                vals.append(opts[k % len(opts)])
                exprs[nm] = "\"%s\".parse().unwrap()" % vals[-1]
            e = pre + c + (" { " + ", ".join("%s: %s" % (f, "None" if o else exprs[f]) for f, _, o in fields) + " }" if fields else "")
            wraps = []
            w = e
            for j in range(len(r["mods"]), -1, -1):
                p2 = "routes::" + "".join(snake(m) + "::" for m in r["mods"][:j])
                w = "%sRoute::%s(%s)" % (p2, caps(r["name"]) if j == len(r["mods"]) else caps(r["mods"][j]), w)
                wraps.append(w)
            it = iter(vals)
            path = "/" + "/".join(s if isinstance(s, str) else next(it) for s in n.segs)
            out.append((e, wraps, r["m"], path, orc.show(n, r, [parse_dbg(t, v) for (_, t), v in zip(n.dynamics(), vals)])))
    return out


class Program:
    """All generated modules in one compiled program."""

    def __init__(self, workdir, items):
        """items: [(key, config, generated text)]"""
        self.dir = workdir
        self.items = items
        self.bad = {}
        os.makedirs(workdir, exist_ok=True)

    def compile_one(self, k):
        """does the generated module compile by itself?"""
        f = os.path.join(self.dir, "one%d.rs" % k)
        with open(f, "w") as h:
            h.write("#![allow(warnings)]\n" + TYPES_RS.replace("pub mod types", "pub mod types") + "\npub mod m {\ninclude!(\"g%d.rs\");\n}\n" % k)
        p = subprocess.run(["rustc", "--edition", "2018", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(self.dir, "one%d.rmeta" % k), f], capture_output=True, text=True)
        return None if p.returncode == 0 else p.stderr

    def build(self, with_to_path=True):
        for k, (key, c, text) in enumerate(self.items):
            with open(os.path.join(self.dir, "g%d.rs" % k), "w") as f:
                f.write(text)
        with cf.ThreadPoolExecutor(8) as ex:
            for k, e in enumerate(ex.map(self.compile_one, range(len(self.items)))):
                if e:
                    self.bad[k] = e
        self.good = [k for k in range(len(self.items)) if k not in self.bad]
        self.tp = {}
        # split over several crates so that they build in parallel
        self.parts = [self.good[j::8] for j in range(8)]
        with cf.ThreadPoolExecutor(8) as ex:
            errs = list(ex.map(lambda j: self.build_part(j, with_to_path), range(8)))
        errs = [e for e in errs if e]
        if errs:
            raise RuntimeError("driver program does not compile:\n" + errs[0][:3000])

    def build_part(self, j, with_to_path):
        if not self.parts[j]:
            return None
        mods, arms, tps = [], [], []
        for k in self.parts[j]:
            mods.append("mod g%d { include!(\"g%d.rs\"); }" % (k, k))
            arms.append("%d => show(std::panic::catch_unwind(|| g%d::routes::match_route(&p, &m)).map_err(|_| ()).map(|r| r.map_err(|e| format!(\"{:?}\", e)).map(|v| format!(\"{:?}\", v)))), " % (k, k))
            if with_to_path:
                cases = to_path_cases(self.items[k][1], random.Random(k))
                self.tp[k] = cases
                body = []
                for e, wraps, m, path, dbg in cases:
                    body.append("{ let x = %s; println!(\"{}\", hex(x.to_path().as_bytes())); }" % e)
                    for w in wraps:
                        body.append("{ let x = %s; println!(\"{}\", hex(x.to_path().as_bytes())); }" % w)
                    body.append("{ let x = %s; let y = x.to_path(); println!(\"{}\", match std::panic::catch_unwind(|| routes::match_route(&y, \"%s\")) { Ok(Ok(routes::Match::Route(z))) => (z == %s).to_string(), _ => \"other\".to_string() }); }" % (e, m, wraps[-1]))
                tps.append("mod t%d { use super::types::*; use super::hex; use super::g%d::routes; pub fn run() { %s } }" % (k, k, "\n".join(body)))
        src = """#![allow(warnings)]
%s
%s
%s
fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|c| format!("{:02x}", c)).collect() } }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn show(r: Result<Result<String, String>, ()>) { match r { Err(()) => println!("panic"), Ok(Ok(s)) => println!("Ok({})", s), Ok(Err(e)) => println!("Err({})", e) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        match a[1].parse::<usize>().unwrap() { %s _ => {} }
        return;
    }
    use std::io::BufRead;
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let mut it = l.split(' ');
        let k: usize = it.next().unwrap().parse().unwrap();
        let p = unhex(it.next().unwrap());
        let m = unhex(it.next().unwrap());
        match k { %s _ => println!("?") }
    }
}
""" % (TYPES_RS, "\n".join(mods), "\n".join(tps), "\n".join("%d => t%d::run()," % (k, k) for k in self.parts[j] if with_to_path), "\n".join(arms))
        f = os.path.join(self.dir, "part%d.rs" % j)
        with open(f, "w") as h:
            h.write(src)
        p = subprocess.run(["rustc", "--edition", "2018", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-o", os.path.join(self.dir, "part%d" % j), f], capture_output=True, text=True)
        return None if p.returncode == 0 else p.stderr

    def exe(self, k):
        return os.path.join(self.dir, "part%d" % [j for j in range(8) if k in self.parts[j]][0])

    def ask(self, k, reqs):
        if not reqs:
            return []
        hx = lambda b: b.hex() or "-"
        try:
            p = subprocess.run([self.exe(k)], input="".join("%d %s %s\n" % (k, hx(a), hx(m)) for a, m in reqs), capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode().splitlines()
            return got + ["timeout"] * (len(reqs) - len(got))
        out = p.stdout.splitlines()
        return out + ["crash"] * (len(reqs) - len(out))

    def to_paths(self, k):
        p = subprocess.run([self.exe(k), str(k)], capture_output=True, text=True, timeout=20)
        return p.stdout.splitlines()


def norm(got):
    """kind of an answer printed by the program"""
    if got in ("panic", "timeout", "crash"):
        return got
    if got.startswith("Err("):
        return "err"
    for k, v in (("Ok(Match::NotFound)", "notfound"), ("Ok(Match::NotAllowed)", "notallowed")):
        if got == k:
            return v
    if got.startswith("Ok(Match::Route("):
        return "route"
    if got.startswith("Ok(Match::Redirect("):
        return "redirect"
    return "?"


def act_of(text):
    """the action part of an answer, without its fields"""
    import re
    return re.sub(r" \{.*\}", "", text, flags=re.S)


def judge(prop, got, want):
    """does the answer `got` satisfy `prop` where the specification says `want`=(kind, text)?"""
    g = norm(got)
    k, t = want
    if prop == "C03":
        return g not in ("panic", "timeout", "crash") or k == "panic"
    if g in ("panic", "timeout", "crash") or k == "panic":
        return prop != "C01" or k not in ("route", "redirect")   # other checks: C03's business
    if prop == "C01":
        return k not in ("route", "redirect") or (g == k and act_of(got) == act_of(t))
    if prop == "C02":
        return (k == "notfound") == (g == "notfound") and (k == "notallowed") == (g == "notallowed") and not (g in ("route", "redirect") and k not in ("route", "redirect"))
    if prop == "C04":
        if (k == "err") != (g == "err"):
            return False
        if k == "err":
            return got.startswith("Err(wayfinder::Error { " + t[4:])
        return k not in ("route", "redirect") or g != k or act_of(got) != act_of(t) or got == t
    raise ValueError(prop)


def holds(prop, orc, path, method, got):
    """-> (ok, expected, at_known_deviation)"""
    ideal, dev = orc.answer(path, method)
    if judge(prop, got, ideal):
        return True, ideal, dev
    if dev:
        built, _ = orc.answer(path, method, True)
        return judge(prop, got, built), ideal, dev
    return False, ideal, dev
