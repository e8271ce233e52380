"""C01-C06: the generated matcher and path builders, one configuration at a
time, for all paths, methods and parameter values."""
import json, os, re, random, concurrent.futures as cf
import conf, corpus, guide, lb, run, concrete
from conf import tree, module_tree, expected_shape

LABEL = re.compile(r"//@(C\d\d)")

TRUSTED = [
    "rustc's and Verus' reading of the extracted text; Z3",
    "xtract gen: mechanical rewriting of the generated Rust (slice patterns and byte-string comparisons to per-literal comparison functions with verified bodies, from_utf8+unwrap / parse+map_err+? / format! to the trusted models utf8_text, parse_text, Text); dropped: headers, derives, Debug/Display/Error impls, AsRef generics",
    "trusted models: FromStr::parse and Display are arbitrary but deterministic functions of the bytes (uninterpreted); from_utf8().unwrap() has the precondition that the bytes are UTF-8",
    "a slice is at most isize::MAX bytes long",
]


def known_findings():
    with open(os.path.join(run.VERIF, "known-findings.json")) as f:
        return json.load(f)


class Configs:
    """configurations, their real generated text, and its extraction"""

    def __init__(self, cs, rep):
        self.cs = cs
        self.names = list(cs)
        self.src, self.ex = {}, {}
        self.refused = {}
        got = run.wfh([{"op": "gen", "cfg": cs[n]} for n in self.names])
        for n, g in zip(self.names, got):
            if "ok" in g:
                self.src[n] = g["ok"]
            else:
                self.refused[n] = g
        ok = [n for n in self.names if n in self.src]
        self.index = {n: k for k, n in enumerate(self.names)}
        for n, e in zip(ok, run.xgen([{"src": self.src[n], "prefix": "crate::c%d" % self.index[n]} for n in ok])):
            self.ex[n] = e
        self.work = rep.work

    def extractable(self, n):
        e = self.ex.get(n)
        return (e is not None and "unsupported" not in e and not e.get("matcher_unsupported")
                and e["shape"] == expected_shape(module_tree(tree(self.cs[n]))))

    def why_not(self, n):
        e = self.ex.get(n) or {}
        return e.get("unsupported") or e.get("matcher_unsupported") or "types are not as declared"

    def prove(self, names, want, rlimit=200, timeout=240):
        """-> {name: result}; result adds failed=[(label, text)], undecided=[text]"""
        def one(n):
            k = self.index[n]
            text = lb.PRELUDE + lb.opaque_decl(self.ex[n]["opaque"]) + lb.emit(k, tree(self.cs[n]), self.ex[n], want) + "}\n"
            r = run.verus(text, "c%d" % k, self.work, rlimit=rlimit, timeout=timeout)
            classify(r, text)
            return n, r
        # biggest first
        names = [n for n in names if not n.startswith("guided") or len(self.src[n]) < 30000]
        order = sorted(names, key=lambda n: -len(self.src[n]))
        with cf.ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, order))


def classify(r, text):
    ls = text.splitlines()
    fn_of, cur = [], ""
    for l in ls:
        m = re.match(r"\s*(?:/\*@to_path \S*@\*/)?(?:pub )?(?:proof |open spec |spec |uninterp spec )?(?:proof |spec )?fn (\w+)", l)
        if m:
            cur = m.group(1)
        fn_of.append(cur)
    r["failed"], r["undecided"], r["cover_failed"] = [], [], False
    if r["crash"]:
        r["undecided"].append("verifier: %s %s" % (r["crash"], (r["diags"][0]["rendered"][:600] if r["diags"] else "")))
        return
    for d in r["diags"]:
        spans = d.get("spans", [])
        if not spans:
            continue
        lines = [ls[s["line_start"] - 1] for s in spans if s["line_start"] <= len(ls)]
        fns = {fn_of[s["line_start"] - 1] for s in spans if s["line_start"] <= len(ls) and s.get("is_primary")}
        if any("//@cover" in l for l in lines):
            r["cover_failed"] = True
            continue
        msg = d.get("message", "")
        fn = next(iter(fns), "")
        labels = [m.group(1) for l in lines for m in [LABEL.search(l)] if m]
        if fn.startswith("round_trip") or fn in ("seg_end_at", "seg_hint"):
            # a lemma about the specification, not about the code
            r["undecided"].append("lemma %s: %s" % (fn, msg))
        elif "postcondition" in msg and labels:
            r["failed"].append((labels[0], d["rendered"]))
        elif "postcondition" in msg and fn == "to_path" or (fn == "to_path"):
            r["failed"].append(("C05", d["rendered"]))
        elif "precondition not satisfied" in msg or "possible arithmetic" in msg or "decreases not satisfied" in msg:
            r["failed"].append(("C03", d["rendered"]))
        elif "invariant" in msg or "assertion failed" in msg:
            r["undecided"].append(d["rendered"][:800])
        else:
            r["undecided"].append(d["rendered"][:800])


def requests(c, rnd, limit):
    out = []
    for p in concrete.paths_for(c, rnd, limit):
        for m in [b"GET", b"POST", b"PUT", b"DELETE", rnd.choice(concrete.METHS)]:
            out.append((p, m))
    return out


def search(prop, C, prog, names, seed, limit=200, stop=3):
    """run the real generated code; -> (failing inputs, number of requests, distinct non-trivial)"""
    bad, total, seen = [], 0, set()

    def one(n):
        k = prog.key[n]
        rnd = random.Random("%s-%s" % (seed, n))
        c = C.cs[n]
        orc = concrete.Oracle(c)
        reqs = requests(c, rnd, limit * 10 if n.startswith("guided") else limit)
        out, kinds = [], set()
        for (p, m), g in zip(reqs, prog.ask(k, reqs)):
            ok, want, dev = concrete.holds(prop, orc, p, m, g)
            kinds.add((n, p, m, concrete.norm(g)))
            if not ok:
                out.append({"config": c, "config_name": n, "path_hex": p.hex(), "path": p.decode("latin1"), "method": m.decode("latin1"), "expected": want[1], "got": g})
                if len(out) >= 3:
                    break
        return out, len(reqs), sum(1 for x in kinds if x[3] not in ("notfound",))
    with cf.ThreadPoolExecutor(8) as ex:
        nt = 0
        for out, t, d in ex.map(one, names):
            bad += out
            total += t
            nt += d
    return bad, total, nt


def program(C, names, work, with_to_path=False):
    prog = concrete.Program(os.path.join(work, "prog"), [(n, C.cs[n], C.src[n]) for n in names])
    prog.build(with_to_path)
    prog.key = {n: k for k, n in enumerate(names)}
    return prog


def show_known(rep, prop):
    """print a line for each listed finding that still fails on the real code"""
    kfs = [k for k in known_findings()["known"] if k["property"] == prop and "path_hex" in k]
    if not kfs:
        return
    cs = {"kf%d" % j: k["config"] for j, k in enumerate(kfs)}
    C = Configs(cs, rep)
    names = [n for n in C.names if n in C.src]
    prog = program(C, names, os.path.join(rep.work, "kf"))
    for j, k in enumerate(kfs):
        n = "kf%d" % j
        if n not in prog.key or prog.key[n] in prog.bad:
            continue
        g = prog.ask(prog.key[n], [(bytes.fromhex(k["path_hex"]), k["method"].encode())])[0]
        if g == k["got"]:
            rep.kf("%s: %s" % (k["id"], k["what"]))


def evidence_base(rep, C, res, names, checked, reqs):
    ver = sum(r["verified"] for r in res.values())
    err = sum(r["errors"] - (1 if r["cover_failed"] else 0) for r in res.values())
    und = {n: r["undecided"][0][:300] for n, r in res.items() if r["undecided"]}
    sizes = [conf_size(C.cs[n]) for n in res]
    rep.coverage.update({
        "programs": len(res),
        "disagreements_checked": len(res),
        "samples": [{"config": n, "functions_verified": res[n]["verified"], "solver_ms": res[n]["smt_ms"]} for n in list(res)[:8]],
        "obligations": ver + err, "discharged": ver,
        "obligation_unit": "functions under contract as counted by Verus (match_route with its postconditions and every precondition of every slice, decode and loop in it; the literal-comparison helpers; the path builders; the lemmas)",
        "checker_cmd": next(iter(res.values()))["cmd"] if res else "",
        "back_end": "Verus 0.2026.09.13 / Z3 bundled with it",
        "solver_ms": sum(r["smt_ms"] for r in res.values()),
        "trusted_base": TRUSTED,
        "vacuity_guards_failed_as_they_must": sum(1 for r in res.values() if r["cover_failed"]),
        "routes_in_configurations": sum(s[0] for s in sizes), "resources_in_configurations": sum(s[1] for s in sizes),
        "undecided_by_proof": und,
        "not_extractable": {n: C.why_not(n) for n in names if n not in res},
        "bounded_supplement": {"label": "bounded, never counted as proved", "requests_run_on_the_compiled_generated_code": reqs},
    })
    rep.assumptions += TRUSTED + [
        "the proof is per configuration: unbounded in request path, method, parameter values and parse/print functions, but only for the configurations listed (fixed set, a systematic small enumeration, and VERIF_SEED-chosen random ones)"]


def conf_size(c):
    return corpus.count(c)


def vacuity(res):
    for n, r in res.items():
        if not r["crash"] and not r["cover_failed"] and r["diags"] == []:
            raise SystemExit("vacuity guard of %s was proved: contradictory preconditions" % n)


def obligation_text(res, names, prop):
    return "\n".join(t for n in names for l, t in res[n]["failed"] if l == prop)


def guided(rep, cs):
    """configurations that the source, where it is not the accepted text, generates differently"""
    run.build("harness")
    g = guide.Guide(rep.seed)
    for k, c in enumerate(g.found):
        cs["guided_%d" % k] = c
    if g.notes:
        rep.notes.append(g.notes)


def check_matcher(rep, prop):
    """C01, C02, C03, C04"""
    run.build("harness")
    run.build("xtract")
    n_random = 120 if rep.thorough else 16
    cs = corpus.corpus(rep.seed, n_random)
    if not rep.thorough:
        rnd = random.Random(rep.seed)
        small = [n for n in cs if n.startswith("small_")]
        for n in rnd.sample(small, len(small) - 24):
            del cs[n]
    guided(rep, cs)
    C = Configs(cs, rep)
    for n, g in C.refused.items():
        if prop == "C01":
            rep.violation("a valid configuration is refused: %s: %s" % (n, g), config=C.cs[n], got=g)
        else:
            rep.notes.append("generation refused for %s" % n)
    names = [n for n in C.names if n in C.src]
    prog = program(C, names, rep.work)
    for k, e in prog.bad.items():
        if prop == "C01":
            rep.violation("the generated matcher of %s does not compile, so nothing it declares is reachable:\n%s" % (names[k], e[:800]), config=C.cs[names[k]], rustc=e)
        else:
            rep.notes.append("generated code of %s does not compile" % names[k])
    good = [n for n in names if prog.key[n] not in prog.bad]
    bad, total, nontrivial = search(prop, C, prog, good, rep.seed, 300 if rep.thorough else 120)
    provable = [n for n in good if C.extractable(n)]
    want = {"C01": {"C01"}, "C02": {"C02"}, "C03": set(), "C04": {"C04"}}[prop]
    res = C.prove(provable, want)
    vacuity(res)
    failing = [n for n in res if any(l == prop for l, _ in res[n]["failed"])]
    by = {}
    for b in bad:
        by.setdefault(b["config_name"], []).append(b)
    # where an obligation fails and no input is known yet, look harder
    for n in failing:
        if n not in by:
            more, t, _ = search(prop, C, prog, [n], "deep-%s" % rep.seed, 6000)
            total += t
            if more:
                by[n] = more
    for n, bs in by.items():
        b = bs[0]
        b["obligation"] = obligation_text(res, [n], prop) if n in res else ""
        rep.violation("%s: request %s %r answered %s, specification says %s%s" % (
            n, b["method"], b["path"], b["got"], b["expected"], "; failed obligation:\n" + b["obligation"][:600] if b["obligation"] else ""), **b)
    for n in failing:
        if n not in by:
            rep.violation("obligation failed for %s:\n%s" % (n, obligation_text(res, [n], prop)[:1500]), found_input=False, config=C.cs[n], obligation=obligation_text(res, [n], prop))
    show_known(rep, prop)
    evidence_base(rep, C, res, good, res, total)
    rep.coverage["bounded_supplement"]["answers_other_than_notfound"] = nontrivial


def check_inverse(rep):
    """C05"""
    prop = "C05"
    run.build("harness")
    run.build("xtract")
    cs = corpus.corpus(rep.seed, 80 if rep.thorough else 12)
    if not rep.thorough:
        rnd = random.Random(rep.seed)
        small = [n for n in cs if n.startswith("small_")]
        for n in rnd.sample(small, len(small) - 16):
            del cs[n]
    guided(rep, cs)
    C = Configs(cs, rep)
    names = [n for n in C.names if n in C.src]
    prog = program(C, names, rep.work, True)
    for k in prog.bad:
        rep.notes.append("generated code of %s does not compile" % names[k])
    good = [n for n in names if prog.key[n] not in prog.bad]
    by, total = {}, 0
    for n in good:
        for b in to_path_failures(C, prog, n):
            by.setdefault(n, []).append(b)
        total += len(prog.tp[prog.key[n]])
    provable = [n for n in good if C.extractable(n)]
    res = C.prove(provable, {"C01", "C02", "C04", "C05"})
    vacuity(res)
    # any failed postcondition of the matcher breaks the round trip's chain; it counts here only with an input
    failing = [n for n in res if any(l == "C05" for l, _ in res[n]["failed"])]
    for n in res:
        if n not in failing and res[n]["failed"] and n not in by:
            res[n]["undecided"].append("a matcher postcondition the round trip rests on failed: " + res[n]["failed"][0][1][:300])
    for n, bs in by.items():
        b = bs[0]
        b["obligation"] = obligation_text(res, [n], prop) if n in res else ""
        rep.violation("%s: %s" % (n, b["what_failed"]), **b)
    for n in failing:
        if n not in by:
            rep.violation("obligation failed for %s:\n%s" % (n, obligation_text(res, [n], prop)[:1500]), found_input=False, config=C.cs[n], obligation=obligation_text(res, [n], prop))
    show_known(rep, prop)
    evidence_base(rep, C, res, good, res, total)
    rep.coverage["round_trip_lemmas"] = sum(1 for n in res for nd in tree(C.cs[n]).all() for r in nd.res if not r["redir"])


def to_path_failures(C, prog, n):
    k = prog.key[n]
    o = prog.to_paths(k)
    orc = concrete.Oracle(C.cs[n])
    out, j = [], 0
    for e, wraps, m, path, dbg in prog.tp[k]:
        got = o[j:j + len(wraps) + 1]
        j += len(wraps) + 1
        for x, g in zip([e] + wraps, got):
            g = bytes.fromhex(g).decode("utf8", "replace") if g != "-" else ""
            if g != path:
                out.append({"config": C.cs[n], "what_failed": "the path of %s is %r, declared %r" % (x, g, path), "value": x, "got": g, "expected": path})
        rt = o[j] if j < len(o) else "missing"
        j += 1
        want, dev = orc.answer(path.encode(), m.encode())
        if rt != "true" and not dev and want == ("route", "Ok(Match::Route(%s))" % dbg):
            out.append({"config": C.cs[n], "what_failed": "matching %s %r, the path of %s, does not give it back" % (m, path, wraps[-1]), "value": wraps[-1], "path": path, "method": m, "got": rt})
    return out


def check_order(rep):
    """C06"""
    prop = "C06"
    run.build("harness")
    run.build("xtract")
    base = corpus.corpus(rep.seed, 60 if rep.thorough else 10)
    rnd = random.Random("order-%s" % rep.seed)
    small = [n for n in base if n.startswith("small_")]
    if not rep.thorough:
        for n in rnd.sample(small, len(small) - 12):
            del base[n]
    guided(rep, base)
    cs, pairs = {}, []
    for n, c in base.items():
        perms = []
        for v in range(4 if rep.thorough else 3):
            s = reversed_order(c) if v == 0 else corpus.shuffled(c, rnd)
            if s != c and s not in perms:
                perms.append(s)
        if not perms:
            continue
        cs[n] = c
        for j, s in enumerate(perms):
            cs["%s~%d" % (n, j)] = s
            pairs.append((n, "%s~%d" % (n, j)))
    C = Configs(cs, rep)
    names = [n for n in C.names if n in C.src]
    prog = program(C, names, rep.work)
    ok = lambda n: n in prog.key and prog.key[n] not in prog.bad
    total, provable, by = 0, [], {}
    for a, b in pairs:
        if ok(a) != ok(b):
            rep.violation("%s: one order is accepted, another is not" % a, config=cs[a], other=cs[b])
            continue
        if not ok(a):
            continue
        reqs = requests(cs[a], random.Random("%s-%s" % (rep.seed, a)), 100)
        total += len(reqs)
        for (p, m), x, y in zip(reqs, prog.ask(prog.key[a], reqs), prog.ask(prog.key[b], reqs)):
            if x != y:
                by.setdefault(b, {"config": cs[a], "other": cs[b], "path_hex": p.hex(), "path": p.decode("latin1"), "method": m.decode("latin1"), "got": x, "got_other": y})
        if C.extractable(a) and C.extractable(b):
            provable.append((a, b))
    # the specification is built from the tree, so it is the same for every order
    todo = [b for _, b in provable][: (400 if rep.thorough else 90)]
    res = C.prove(todo, {"C01", "C02", "C04"})
    vacuity(res)
    for a, b in provable:
        if b not in res or not res[b]["failed"]:
            continue
        ref = C.prove([a], {"C01", "C02", "C04"})[a]
        if not ref["failed"] and not ref["undecided"] and b not in by:
            rep.violation("the declared order of %s meets the order-independent specification, another order does not:\n%s" % (a, res[b]["failed"][0][1][:1200]),
                          found_input=False, config=cs[a], other=cs[b], obligation=res[b]["failed"][0][1])
    for b, v in by.items():
        rep.violation("%s %r is answered %s in one order and %s in another" % (v["method"], v["path"], v["got"], v["got_other"]), **v)
    evidence_base(rep, C, res, todo, res, total)
    rep.coverage["orders_proved_against_one_specification"] = len(res)


def reversed_order(c):
    def go(r):
        return {"q": r["q"], "res": list(reversed(r["res"])), "sub": [{"seg": x["seg"], "routes": go(x["routes"])} for x in reversed(r["sub"])]}
    return {"headers": c["headers"], "routes": go(c["routes"])}
