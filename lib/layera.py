"""Contracts on functions extracted from /repo's source on every run.

contracts/<ID>.rs is a Verus file with places for the real code:

  //@type FILE PATH [: TRAITS]      the type definition, verbatim; TRAITS must be derived there
  //@fn FILE PATH [-> r]            the function, verbatim up to the rewriting listed in xtract/src/core.rs;
  <requires / ensures / decreases>  the contract
  //@pub                            the function is visible outside its module
  //@attr #[...]                    verifier attributes
  //@start                          ghost code at the start of the body
  //@loop N                         invariants of the N-th loop (source order)
  //@head N | tail N | before N | after N   ghost code around / in the N-th loop
  //@end
  //@loopall                        invariants of every loop without its own
  //@sig FILE PATH [-> r]           only the signature, with a contract that is assumed here
  //@writers FILE [-> r]            every free function of the file that takes an output (&mut W, W: Write)
                                    and is not placed otherwise; $w is that parameter
  //@others FILE                    the signatures of the remaining free functions of the file
  //@pieces                         the contract of the put_SHAPE functions the extraction makes of write!;
                                    $text is the text of the pieces. Their bodies and those of the
                                    text_SHAPE functions (of format!) are made here, and verified
  //@split                          the function is verified in parts: each block of the form
                                    `if .. { .. return ..; }` of its body on its own, and the rest
                                    without them (no path goes through two of them)
  //@overflow panics                arithmetic overflow is treated as a panic, not as an obligation
  //@include FILE                   another contract file
  //@given FILE                     another contract file, whose functions are verified elsewhere:
                                    their contracts are used here
  //@support                      the other files' contracts rest on this one. Of its obligations only
                                  the clauses marked //@decides speak of the property itself: where
                                  another fails, the bounded search decides, and searches deeper
  //@only MODULE                    only this module's functions are verified here (the lemmas of the
                                    files given are verified where those are included)

$1 $2 ... are the parameters in order; $vN $kN $oN the sequence, counter and
accumulator of loop N where the extraction made a loop out of an iteration.

Verdicts per function: proved, failed (an obligation is refuted or not
provable), undecided (function missing, contract does not fit its shape any
more, construct outside the verifier's language, resource limit)."""
import hashlib, json, os, re
import concurrent.futures as cf
import run

V = run.VERIF
SRC = "/repo/wayfinder/src/"
CON = os.path.join(V, "contracts")
FAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|out of bounds|unable to prove|assert_by", re.I)
# says nothing about what the code does
LIMIT = re.compile(r"resource limit|rlimit|timed? ?out|decreases not satisfied", re.I)


class Undecided(Exception):
    pass


class Part:
    def __init__(self, kind, file, path, ret=None):
        self.kind, self.file, self.path, self.ret = kind, file, path, ret
        self.sections = {"contract": [], "attr": [], "start": []}
        self.name = path
        self.hoist = False
        self.sig = False
        self.derives = []
        self.pub = False
        self.split = False

    def __repr__(self):
        return "%s %s" % (self.file, self.path)


def load(name, seen=None):
    """-> list of str (verbatim line) and Part"""
    out, part, sec = [], None, None
    for l in open(os.path.join(CON, name)):
        l = l.rstrip("\n")
        m = re.match(r"\s*//@(\w+)\s*(.*)$", l)
        if not m:
            if part is None:
                out.append(l)
            else:
                part.sections.setdefault(sec, []).append(l)
            continue
        k, a = m.group(1), m.group(2).strip()
        if k == "include":
            out += load(a)
        elif k == "given":
            # proved in another contract file, which includes it
            for q in load(a):
                if isinstance(q, Part) and q.kind == "fn":
                    q.sig = True
                out.append(q)
        elif k in ("only", "support"):
            out.append(Part(k, a, ""))
        elif k == "type":
            a, d = [x.strip() for x in a.split(" : ")] if " : " in a else (a, "")
            f, p = a.split(None, 1)
            out.append(Part("type", f, p))
            out[-1].derives = d.split()
        elif k in ("fn", "sig", "writers"):
            r = None
            if "->" in a and not a.startswith("<"):
                a, r = [x.strip() for x in a.rsplit("->", 1)]
            elif " -> " in a:
                a, r = [x.strip() for x in a.rsplit(" -> ", 1)]
            f, p = a.split(None, 1) if k != "writers" else (a, "")
            part, sec = Part("writers" if k == "writers" else "fn", f, p, r), "contract"
            part.sig = k == "sig"
            out.append(part)
        elif k == "pieces":
            part, sec = Part("pieces", "", ""), "contract"
            out.append(part)
        elif k == "overflow":
            out.append(Part("overflow", "", ""))
        elif k == "others":
            out.append(Part("others", a, ""))
        elif k == "attr":
            part.sections["attr"].append(a)
        elif k == "pub":
            part.pub = True
        elif k == "split":
            part.split = True
        elif k == "hoist":
            part.hoist = True
        elif k == "end":
            part = None
        elif k in ("loop", "head", "tail", "before", "after"):
            sec = "%s%s" % (k, a)
            part.sections.setdefault(sec, [])
        elif k == "call":
            sec = "call " + a
            part.sections.setdefault(sec, [])
        elif k in ("start", "loopall"):
            sec = k
        else:
            raise SystemExit("contract directive " + k)
    return out


def writer(fn):
    """the name of the output parameter"""
    for i in fn["inputs"]:
        m = re.match(r"(\w+) : & (?:'\w+ )?mut (\w+)$", i)
        if m and re.search(r"\b%s\b[^,]*\bWrite\b" % m.group(2), fn["generics"] + " " + fn["where"]):
            return m.group(1)
    return None


def expand(items):
    """//@writers and //@others into the functions of the file as it is now"""
    placed = {(p.file, p.path) for p in items if isinstance(p, Part)}
    out = []
    for it in items:
        if not isinstance(it, Part) or it.kind not in ("writers", "others"):
            out.append(it)
            continue
        try:
            src = open(SRC + it.file).read()
        except OSError:
            src = ""
        x = run.lines([run.XT, "core"], [{"src": src, "kind": "list", "path": ""}])[0]
        for fn in x.get("fns", []):
            w = writer(fn)
            if (it.file, fn["path"]) in placed or (w is None) != (it.kind == "others") or "::" in fn["path"]:
                continue
            p = Part("fn", it.file, fn["path"], it.ret)
            p.sig = it.kind == "others"
            p.sections = {k: [l.replace("$w", w or "") for l in v] for k, v in it.sections.items()}
            placed.add((it.file, fn["path"]))
            out.append(p)
    return out


def extract(parts, arith=False):
    srcs = {}
    reqs = []
    for p in parts:
        if p.file not in srcs:
            try:
                srcs[p.file] = open(SRC + p.file).read()
            except OSError:
                srcs[p.file] = ""
        reqs.append({"src": srcs[p.file], "kind": p.kind, "path": p.path, "arith": arith})
    return run.lines([run.XT, "core"], reqs) if reqs else []


LITERAL = re.compile(r"""(r(#*)".*?"\2|b?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\[^u]|\\x..|\\u\{[^}]*\})')""", re.S)


def clean(ts):
    """token-stream spacing back to source spacing where it matters to read; literals untouched"""
    out, end = [], 0
    for m in LITERAL.finditer(ts):
        out += [space(ts[end:m.start()]), m.group(1)]
        end = m.end()
    return "".join(out) + space(ts[end:])


def space(ts):
    for a, b in ((" . ", "."), (" :: ", "::"), ("& mut ", "&mut "), (" ,", ","), (" ;", ";"), ("( ", "("), (" )", ")")):
        ts = ts.replace(a, b)
    return ts


def loopvars(body):
    """loop number -> (v, k, o)"""
    out = {}
    for m in re.finditer(r"while k_(\d+) < (\w+)[^\{]*\{\s*vf_inv ! \((\d+)\)", body):
        k = int(m.group(1))
        out[m.group(3)] = (m.group(2), "k_%d" % k, "o_%d" % (k + 1))
    for m in re.finditer(r"while (v_\d+) \. len \(\) > 0 \{\s*vf_inv ! \((\d+)\)", body):
        out[m.group(2)] = (m.group(1), "", "o_%d" % (int(m.group(1)[2:]) + 1))
    return out


def render(p, x, stub=False, vacuous=False, opened=None):
    stub = stub or p.sig
    if "unsupported" in x or "panic" in x:
        raise Undecided(x.get("unsupported") or x["panic"])
    if p.kind == "type":
        miss = [d for d in p.derives if d not in x["derives"]]
        if miss:
            raise Undecided("%s no longer derives %s" % (p.path, " ".join(miss)))
        return ["pub " + x["text"] if not x["text"].startswith("pub") else x["text"]]
    body = x["body"]
    lv = loopvars(body)
    names = {str(i): n for i, (n, _) in enumerate([q for q in x["params"] if q[0] != "self"], 1)}

    def sub(t):
        def f(m):
            c, n = m.group(1), m.group(2)
            if c == "":
                if n not in names:
                    raise Undecided("%s has no parameter %s" % (p.path, n))
                return names[n]
            if n not in lv:
                raise Undecided("%s: loop %s is not the iteration the contract is about" % (p.path, n))
            return lv[n]["vko".index(c)]
        return re.sub(r"\$([vko]?)(\d+)", f, t).replace("$self", "self")

    S = {k: [sub(l) for l in v] for k, v in p.sections.items()} if not stub else {k: ([sub(l) for l in v] if k in ("contract", "attr") else []) for k, v in p.sections.items()}
    wanted = {int(k[len(w):]) for k in p.sections for w in ("loop", "head", "tail", "before", "after") if re.match(w + r"\d+$", k)}
    if not stub and wanted and max(wanted) > x["loops"]:
        raise Undecided("%s has %d loops, the contract speaks of %d" % (p.path, x["loops"], max(wanted)))
    if not stub and "loopall" not in p.sections and x["loops"] > len({k for k in p.sections if k.startswith("loop")}):
        raise Undecided("%s has %d loops, the contract speaks of %d" % (p.path, x["loops"], len(wanted)))
    ret = (" -> (%s: %s)" % (p.ret, clean(x["ret"])) if p.ret else " -> " + clean(x["ret"])) if x["ret"] else ""
    g = x["generics"]
    if p.hoist:
        g = "<" + x["impl_generics"] + ("," + g.strip()[1:] if g.strip() else ">")
    head = "%s%s%sfn %s%s(%s)%s %s" % ("\n".join(S["attr"]), "\n" if S["attr"] else "", "pub " if p.pub else "", x["name"], clean(g), ", ".join(clean(q[1]) for q in x["params"]), ret, clean(x["where"]))
    out = head.split("\n") + S["contract"]
    if stub:
        out.insert(0, "#[verifier::external_body]")
        return out + ["{ unimplemented!() }"]

    if vacuous:
        return [l for l in out + ["{ proof { assert(false); } vstd::pervasive::unreached() }"] if l.strip()]

    def mark(m):
        k, n = m.group(1), m.group(2)
        key = {"vf_before": "before", "vf_tail": "tail", "vf_after": "after"}[k] + n
        return "\n" + (";" if k == "vf_after" else "") + "\n".join(S.get(key, [])) + "\n"

    def loop(m):
        n = m.group(1)
        return "\n" + "\n".join(S.get("loop" + n, S.get("loopall", []))) + "\n{\n" + "\n".join(S.get("head" + n, [])) + "\n"
    b = re.sub(r"\{\s*vf_inv ! \((\d+)\)\s*;", loop, body)
    b = re.sub(r"(vf_before|vf_tail|vf_after) ! \((\d+)\)\s*;", mark, b)
    b = re.sub(r"vf_cut ! \((\d+)\)\s*;", lambda m: "\nproof { assume(false); }\n" if p.split and opened != int(m.group(1)) else "", b)
    # before the k-th statement that calls a function of this name
    for key in S:
        if key.startswith("call "):
            _, f, k = key.split()
            at = [i for i, l in enumerate(b.split("\n")) if re.match(r"\s*%s\s*\(" % f, l)]
            if len(at) < int(k):
                raise Undecided("%s calls %s %d times, the contract speaks of %s" % (p.path, f, len(at), k))
    b = b.split("\n")
    for i, l in reversed(list(enumerate(b))):
        for key in S:
            if key.startswith("call "):
                _, f, k = key.split()
                if re.match(r"\s*%s\s*\(" % f, l) and sum(bool(re.match(r"\s*%s\s*\(" % f, x)) for x in b[:i]) == int(k) - 1:
                    b[i:i] = S[key]
    b = "\n".join(b)
    b = "\n".join(clean(l) for l in b.split("\n"))
    # what the verifier wants first in a body
    first = [l for l in S["start"] if re.match(r"\s*(hide|broadcast use)\b", l)]
    out += ["{"] + first + [l for l in S["start"] if l not in first] + b.split("\n") + ["}"]
    return [l for l in out if l.strip()]


def pieces(text, contract):
    """the put_SHAPE and text_SHAPE functions that are called"""
    out = []
    for f, shape in sorted(set(re.findall(r"\b(put|text)_([al]+)\b(?= ?\()", text))):
        if f == "put" and contract is None:
            continue
        g = ["A%d: Disp + ?Sized" % i for i, c in enumerate(shape) if c == "a"] + (["W: io::Write"] if f == "put" else [])
        ps = ["p%d: &%s" % (i, "A%d" % i if c == "a" else "str") for i, c in enumerate(shape)]
        t = "o0()" + "".join(" + p%d%s" % (i, ".shown()" if c == "a" else "@") for i, c in enumerate(shape))
        body = ["let mut o = String::new();"] + ["%s;" % ("disp(p%d, &mut o)" % i if c == "a" else "o.push_str(p%d)" % i) for i, c in enumerate(shape)]
        g = "<%s>" % ", ".join(g) if g else ""
        if f == "put":
            out += ["pub fn put_%s%s(w: &mut W, %s) -> (r: io::Result<()>)" % (shape, g, ", ".join(ps))] + [l.replace("$text", t) for l in contract] + ["{ %s w.put_text(o) }" % " ".join(body)]
        else:
            out += ["pub fn text_%s%s(%s) -> (r: String)" % (shape, g, ", ".join(ps)), "    ensures r@ == %s" % t, "{ %s o }" % " ".join(body)]
    return out


def assemble(items, xs, stubs, vacuous=False, opened=None):
    """-> text, [(first line, last line, part)]"""
    lines, where = [], []
    contract = None
    for it in items:
        if isinstance(it, str):
            lines.append(it)
            continue
        if it.kind == "pieces":
            contract = it.sections["contract"]
            continue
        r = "\n".join(render(it, xs[id(it)], stub=it.path + it.file in stubs, vacuous=vacuous and it.kind == "fn" and not it.sig, opened=opened[1] if opened and opened[0] is it else None)).split("\n")
        where.append((len(lines) + 1, len(lines) + len(r), it))
        lines += r
    last = max(i for i, l in enumerate(lines) if l.startswith("}"))
    lines[last:last] = pieces("\n".join(lines), contract)
    return "\n".join(lines) + "\n", where


def text_of(d):
    out = [d["message"]]
    for s in d.get("spans", []):
        t = " ".join(x["text"].strip() for x in s.get("text", [])[:3])
        out.append("  line %d: %s%s" % (s["line_start"], t[:160], "   <- " + s["label"] if s.get("label") else ""))
    return "\n".join(out)


def fingerprint(items, xs):
    return {repr(it): hashlib.sha256(json.dumps(xs[id(it)], sort_keys=True).encode()).hexdigest()[:16] for it in items if isinstance(it, Part) and it.kind != "pieces"}


SEEDS = (7, 23)


def around(text, d):
    """the lines on which the functions start that a message points into"""
    ls, out = text.split("\n"), set()
    for s in d.get("spans", []):
        for i in range(min(s["line_start"], len(ls)) - 1, -1, -1):
            if re.search(r"\bfn\s+\w+\s*(<|\()", ls[i]) and not ls[i].lstrip().startswith("//"):
                out.add(i)
                break
    return out


def options(name):
    """-> items, overflow is a panic, arguments for the verifier"""
    items = expand(load(name))
    arith = any(isinstance(i, Part) and i.kind == "overflow" for i in items)
    only = [x for i in items if isinstance(i, Part) and i.kind == "only" for x in ("--verify-only-module", i.file)]
    support = any(isinstance(i, Part) and i.kind == "support" for i in items)
    return [i for i in items if not (isinstance(i, Part) and i.kind in ("overflow", "only", "support"))], arith, tuple(only), support


def decide(name, work, rlimit=100, timeout=270):
    """-> dict for one contract file"""
    items, arith, only, support = options(name)
    parts = [i for i in items if isinstance(i, Part) and i.kind != "pieces"]
    ex = extract(parts, arith)
    xs = {id(p): x for p, x in zip(parts, ex)}
    base = json.load(open(os.path.join(CON, "accepted.json"))) if os.path.exists(os.path.join(CON, "accepted.json")) else {}
    fps = fingerprint(items, xs)
    changed = {k for k, v in fps.items() if base.get(name, {}).get(k) != v}
    res = {"file": name, "proved": [], "failed": [], "undecided": [], "functions": [repr(p) for p in parts if p.kind == "fn" and not p.sig], "verified": 0, "smt_ms": 0, "wall": 0.0, "cmd": "", "fingerprint": fps}
    stubs = set()
    for attempt in range(6):
        try:
            text, where = assemble(items, xs, stubs)
        except Undecided:
            # find which
            for p in parts:
                if p.path + p.file in stubs:
                    continue
                try:
                    render(p, xs[id(p)])
                except Undecided as e:
                    res["undecided"].append((repr(p), str(e)))
                    if p.kind == "type" or "unsupported" in xs[id(p)] or "panic" in xs[id(p)]:
                        # its contract cannot even be stated
                        res["undecided"].append(("(all of %s)" % name, "%s is missing or unreadable" % p))
                        return res
                    try:
                        render(p, xs[id(p)], stub=True)
                    except Undecided:
                        res["undecided"].append(("(all of %s)" % name, "the signature of %s does not fit" % p))
                        return res
                    stubs.add(p.path + p.file)
            continue
        # the parts of a function that is verified in parts
        jobs = [(text, where, only)]
        for p in parts:
            if p.split and not p.sig and p.path + p.file not in stubs:
                for k in range(1, xs[id(p)].get("cuts", 0) + 1):
                    jobs.append((*assemble(items, xs, stubs, opened=(p, k)), ("--verify-root", "--verify-function", xs[id(p)]["name"])))
        base_name = name.replace(".rs", "")
        with cf.ThreadPoolExecutor(6) as pool:
            rs = list(pool.map(lambda a: run.verus(a[1][0], "%s_%d_%d" % (base_name, attempt, a[0]), work, rlimit=rlimit, timeout=timeout, extra=a[1][2]), enumerate(jobs)))
        res["cmd"] = rs[0]["cmd"]
        res["smt_ms"] += sum(r["smt_ms"] for r in rs)
        res["wall"] += max(r["wall"] for r in rs)
        if all(r["ok"] for r in rs):
            res["verified"] = sum(r["verified"] for r in rs)
            break
        done = True
        for j, ((text, where, extra), r) in enumerate(zip(jobs, rs)):
            verdict = [d for d in r["diags"] if FAIL.search(d["message"]) and not LIMIT.search(d["message"])]
            limits = [d for d in r["diags"] if LIMIT.search(d["message"])]
            other = [d for d in r["diags"] if d not in verdict and d not in limits and not d["message"].startswith("aborting")]
            res["verified"] += r["verified"]
            if r["ok"]:
                continue
            if r["crash"] and not other and not verdict and not limits:
                if j == 0 or not extra:
                    res["undecided"].append(("(all of %s)" % name, r["crash"]))
                    return res
                n = [repr(p) for p in parts if xs[id(p)].get("name") == extra[2]]
                res["undecided"].append((n[0], r["crash"]))
                continue

            def owner(d, where=where):
                for s in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
                    for a, b, p in where:
                        if a <= s["line_start"] <= b and p.kind == "fn":
                            return p
                return None
            if other:
                # not accepted by the verifier at all: set the offending functions aside and go on
                new = set()
                for d in other:
                    p = owner(d)
                    if p is not None and p.path + p.file not in stubs:
                        res["undecided"].append((repr(p), "outside the verifier's reach: " + text_of(d)[:600]))
                        new.add(p.path + p.file)
                if not new:
                    res["undecided"].append(("(all of %s)" % name, "not accepted by the verifier: " + text_of(other[0])[:1500]))
                    return res
                stubs |= new
                done = False
                break
            if not verdict and not limits:
                res["undecided"].append(("(all of %s)" % name, "the verifier gave no answer: " + (r["crash"] or "errors without a message")))
                return res
            # what is proved with another seed is proved
            for seed in SEEDS:
                if res["wall"] > 200:
                    break
                r2 = run.verus(text, "%s_%d_%d_seed%d" % (base_name, attempt, j, seed), work, rlimit=rlimit, timeout=timeout, extra=(*extra, "--smt-option", "smt.random_seed=%d" % seed))
                res["smt_ms"] += r2["smt_ms"]
                res["wall"] += r2["wall"]
                if r2["crash"] or not (r2["ok"] or r2["diags"]):
                    continue
                still = set().union(*[around(text, d) for d in r2["diags"]])
                verdict = [d for d in verdict if not around(text, d) or around(text, d) & still]
                limits = [d for d in limits if not around(text, d) or around(text, d) & still]
                if not verdict and not limits:
                    break
            for d in verdict + limits:
                p = owner(d)
                n = repr(p) if p is not None else "(lemma of %s)" % name
                if d in limits:
                    res["undecided"].append((n, text_of(d)))
                elif support and not any("//@decides" in x["text"] for sp in d.get("spans", []) for x in sp.get("text", [])):
                    res["undecided"].append((n, "an obligation the others rest on: " + text_of(d)))
                elif not changed:
                    # the same text was accepted before: the verifier is unstable here
                    res["undecided"].append((n, "unstable: " + text_of(d)))
                else:
                    res["failed"].append((n, text_of(d)))
        if not done:
            res["verified"] = 0
            continue
        break
    bad = {n for n, _ in res["failed"] + res["undecided"]}
    if not any(n.startswith("(all") for n in bad):
        res["proved"] = [n for n in res["functions"] if n not in bad]
    res["items"], res["xs"], res["stubs"], res["only"] = items, xs, stubs, only
    return res


def vacuity(res, work):
    """every function's precondition must be satisfiable: with assert(false) at its start each must fail"""
    if not res["proved"]:
        return []
    text, where = assemble(res["items"], res["xs"], res["stubs"], vacuous=True)
    r = run.verus(text, "vacuity", work, rlimit=30, timeout=240, extra=res["only"], errors=0)
    if r["crash"]:
        res["undecided"].append(("(vacuity of %s)" % res["file"], "not established: " + r["crash"][:300]))
        return []
    hit = set()
    for d in r["diags"]:
        for s in d.get("spans", []):
            for a, b, p in where:
                if a <= s["line_start"] <= b:
                    hit.add(repr(p))
    return [n for n in res["proved"] if n not in hit]


def trusted(name, res):
    """what the file assumes, mechanically listed"""
    out, lines = [], "\n".join(i for i in res.get("items", []) if isinstance(i, str)).split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l or "assume_specification" in l or "external_type_specification" in l:
            sig = " ".join(x.strip() for x in lines[i:i + 4])
            out.append("trusted: " + re.sub(r"\s+", " ", sig)[:220])
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.append("assumed: " + l.strip()[:200])
    return out


def prove(prop, rep, files=None):
    files = files or [f for f in sorted(os.listdir(CON)) if re.match(prop + r"\w*\.rs$", f)]
    if not files:
        return None
    work = os.path.join(rep.work, "contracts")
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda f: decide(f, work), files))
        vac = list(ex.map(lambda r: vacuity(r, work_of(work, r)), rs))
    for r, v in zip(rs, vac):
        if v:
            raise SystemExit("vacuous contracts: %s" % v)
    failed = [f for r in rs for f in r["failed"]]
    und = [f for r in rs for f in r["undecided"]]
    proved = [f for r in rs for f in r["proved"]]
    cov = {
        "functions_under_contract": sorted({f for r in rs for f in r["functions"]}),
        "functions_proved": sorted(set(proved)),
        "functions_undecided": [{"function": a, "reason": b[:400]} for a, b in und],
        "obligations": sum(r["verified"] for r in rs) + len(failed) + len(und),
        "discharged": sum(r["verified"] for r in rs),
        "back_end": "Verus (Z3)", "solver_ms": sum(r["smt_ms"] for r in rs), "verifier_wall_s": round(sum(r["wall"] for r in rs), 1),
        "checker_cmd": rs[0]["cmd"],
        "trusted_base": sorted({t for f, r in zip(files, rs) for t in trusted(f, r)}) + ["the extraction (xtract/src/core.rs): drops attributes, comments and visibility; rewrites iteration, formatting macros and Result::map as listed there"],
    }
    return {"failed": failed, "undecided": und, "proved": proved, "coverage": cov, "results": rs,
            "assumptions": ["contracts assumed on dependencies are listed in coverage.trusted_base"] + (["undecided, so decided only by the bounded oracle: " + a for a, _ in und])}


def work_of(work, r):
    d = os.path.join(work, "v_" + r["file"])
    os.makedirs(d, exist_ok=True)
    return d
