"""Bounded checks of the real code against independent Python oracles.  They
stand in where the verifier cannot reach, and look for failing inputs where an
obligation fails; always labelled bounded, never counted as proved."""
import fcntl, json, os, random, re, subprocess, resource, shutil, signal
import concurrent.futures as cf
import conf, corpus, guide, run, refparse
from conf import *


def batch(reqs, parts=8):
    if len(reqs) < 64:
        return run.wfh(reqs)
    n = (len(reqs) + parts - 1) // parts
    with cf.ThreadPoolExecutor(parts) as ex:
        return [x for o in ex.map(run.wfh, [reqs[i:i + n] for i in range(0, len(reqs), n)]) for x in o]


def xbatch(reqs, parts=8):
    n = max(1, (len(reqs) + parts - 1) // parts)
    with cf.ThreadPoolExecutor(parts) as ex:
        return [x for o in ex.map(run.xgen, [reqs[i:i + n] for i in range(0, len(reqs), n)]) for x in o]


def rand_valid(seed, n, **kw):
    rnd = random.Random(seed)
    out = []
    while len(out) < n:
        c = corpus.rand_config(rnd, depth=rnd.choice([1, 2, 3, 4, 5]), width=rnd.choice([3, 4, 6]))
        if corpus.valid(c):
            out.append(c)
    if corpus.DEEP:
        out += corpus.FOUND
        while len(out) < n + len(corpus.FOUND) + n // 2:
            c = guide.sized(rnd, [w for w in corpus.WORDS if guide.lit(w)], corpus.SIZES)
            if corpus.valid(c):
                out.append(c)
    return out


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return "%016x" % h


class Outcome:
    def __init__(self):
        self.n = 0
        self.bad = []          # (what, data)
        self.distinct = set()
        self.samples = []

    def case(self, key, what=None, **data):
        self.n += 1
        self.distinct.add(hash(key))
        if len(self.samples) < 5 and what is None and random.random() < 0.05:
            self.samples.append(str(key)[:200])
        if what is not None:
            self.bad.append((what, data))


# ---------------------------------------------------------------- C07

def places(c):
    def go(r, segs):
        yield r, segs
        for s in r["sub"]:
            yield from go(s["routes"], segs + [s["seg"]])
    yield from go(c["routes"], [])


def conflicts(c, rnd):
    """configurations with one conflict added to c: [(kind, config)]"""
    out = []

    def fresh():
        d = json.loads(json.dumps(c))
        return d, list(places(d))

    def leaf():
        k = rnd.randrange(4)
        nm = "Extra%d" % rnd.randrange(10 ** 6)
        if k == 0:
            return R([res(nm)])
        if k == 1:
            return R([], [("deep", R([res(nm, "POST")]))])
        if k == 2:
            return R([], [(["zz", "u32"], R([res(nm, "PUT")]))])
        return R([res(nm), res(nm + "b", "POST")], [("deeper", R([res(nm + "c")]))], [["extraq", "u32"]])

    def insert(r, sub):
        r["sub"].insert(rnd.randrange(len(r["sub"]) + 1), sub)

    d, ps = fresh()
    withsub = [r for r, _ in ps if r["sub"]]
    if withsub:
        r = rnd.choice(withsub)
        s = rnd.choice(r["sub"])
        insert(r, {"seg": s["seg"], "routes": leaf()})
        out.append(("path", d))
        d, ps = fresh()
        # the deepest block of children
        r, _ = max([(r, len(s)) for r, s in ps if r["sub"]], key=lambda x: x[1])
        insert(r, {"seg": r["sub"][-1]["seg"], "routes": leaf()})
        out.append(("path", d))
    d, ps = fresh()
    dyn = [(r, s) for r, _ in ps for s in r["sub"] if not isinstance(s["seg"], str)]
    if dyn:
        r, s = rnd.choice(dyn)
        insert(r, {"seg": ["other" + s["seg"][0], s["seg"][1]], "routes": leaf()})
        out.append(("sibling parameter", d))
        d, ps = fresh()
        r, s = rnd.choice([(r, s) for r, _ in ps for s in r["sub"] if not isinstance(s["seg"], str)])
        insert(r, {"seg": [s["seg"][0], "Othertype"], "routes": leaf()})
        out.append(("path", d))
    d, ps = fresh()
    r, _ = rnd.choice(ps)
    if all(isinstance(s["seg"], str) for s in r["sub"]):
        insert(r, {"seg": ["pone", "u32"], "routes": leaf()})
        insert(r, {"seg": ["ptwo", "String"], "routes": leaf()})
        out.append(("sibling parameter", d))
    for _ in range(3):
        d, ps = fresh()
        hs = [(r, x) for r, _ in ps for x in r["res"] if not x["redir"]]
        if hs:
            _, x = rnd.choice(hs)
            r, _ = rnd.choice(ps)
            free = [m for m in METHODS if m not in [y["m"] for y in r["res"]]]
            y = dict(x, m=rnd.choice(free) if free else rnd.choice(METHODS), q=[])
            r["res"].insert(rnd.randrange(len(r["res"]) + 1), y)
            out.append(("handler", d))
    d, ps = fresh()
    hs = [(r, x) for r, _ in ps for x in r["res"] if not x["redir"]]
    if hs:
        # a whole new branch with the same handler, first or last
        _, x = rnd.choice(hs)
        sub = {"seg": "newbranch", "routes": R([dict(x, q=[])])}
        rt = d["routes"]["sub"]
        rt.insert(0 if rnd.random() < .5 else len(rt), sub)
        out.append(("handler", d))
    return out


def fixed_conflicts():
    a = corpus.Auto()
    l = lambda: R([a()])
    h = lambda m="GET": res("Same", m, ["Mod", "Sub"])
    yield "path", cfg(R([], [("a", l()), ("a", l())]))
    yield "path", cfg(R([a()], [("a", R([], [("b", l())])), ("a", R([], [("c", l())]))]))
    yield "path", cfg(R([a()], [("a", l()), ("b", l()), ("c", l()), ("a", R([], [("x", l())]))]))
    yield "path", cfg(R([], [(["id", "u32"], l()), (["id", "u32"], l())]))
    yield "path", cfg(R([], [("x", R([], [(["id", "u32"], R([], [("y", l())])), ("z", l()), (["id", "u32"], R([], [("w", l())]))]))]))
    yield "sibling parameter", cfg(R([], [(["id", "u32"], l()), (["name", "u32"], l())]))
    yield "sibling parameter", cfg(R([], [("x", l()), (["id", "u32"], R([], [("y", l())])), (["name", "String"], R([], [("w", l())]))]))
    yield "sibling parameter", cfg(R([], [("new", l()), ("newer", l()), (["id", "u32"], l()), ("old", l()), (["b", "u32"], l())]))
    yield "sibling parameter", cfg(R([], [("a", R([], [("b", R([], [(["p", "u32"], l()), (["q", "u32"], l()), (["r", "u32"], l())]))]))]))
    yield "handler", cfg(R([res("A"), res("A", "POST")]))
    yield "handler", cfg(R([h()], [("x", R([], [("y", R([h("PUT")]))]))]))
    yield "handler", cfg(R([], [("x", R([h()])), ("y", R([a(mods=["Mod", "Sub"])])), ("z", R([a(mods=["Mod"]), h("DELETE")]))]))


def presence(x, c):
    """which declared resources the generated module lacks"""
    root = tree(c)
    missing = []
    if x.get("shape") != expected_shape(module_tree(root)):
        missing.append("the module tree is not the declared one")
    body = x.get("body") or ""
    flat = re.sub(r"\s+", "", body)
    for n in root.all():
        for r in n.res:
            acc = "Match::%s(" % ("Redirect" if r["redir"] else "Route")
            pre = ""
            for m in r["mods"]:
                acc += "%sRoute::%s(" % (pre, caps(m))
                pre += snake(m) + "::"
            acc += "%sRoute::%s(%s%s" % (pre, caps(r["name"]), pre, caps(r["name"]))
            if not re.search(re.escape(acc) + r"\b", flat):
                missing.append("%s %s %s is not in the matcher" % (r["m"], "::".join(r["mods"] + [r["name"]]), n.segs))
    return missing


def c07(seed, thorough):
    o = Outcome()
    cs = list(corpus.fixed().values()) + list(corpus.small().values()) + rand_valid("c07-%s" % seed, 2000 if thorough else 260)
    gens = batch([{"op": "gen", "cfg": c} for c in cs])
    xs = xbatch([{"src": g["ok"], "prefix": "crate"} for g in gens if "ok" in g])
    k = 0
    for c, g in zip(cs, gens):
        if "ok" not in g:
            o.case(json.dumps(c), "a configuration without a conflict is refused: %s" % g, config=c, got=g)
            continue
        x = xs[k]
        k += 1
        if "unsupported" in x or x.get("matcher_unsupported"):
            o.case(json.dumps(c))
            continue
        miss = presence(x, c)
        o.case(json.dumps(c), "accepted, but %s" % "; ".join(miss) if miss else None, config=c, missing=miss)
    rnd = random.Random("c07c-%s" % seed)
    bads = list(fixed_conflicts())
    for c in cs:
        bads += conflicts(c, rnd)
    gens = batch([{"op": "gen", "cfg": c} for _, c in bads])
    kinds = {}
    for (kind, c), g in zip(bads, gens):
        kinds[kind] = kinds.get(kind, 0) + 1
        o.case(json.dumps(c), "generation succeeds although two %s conflict" % {"path": "routes have the same path and", "handler": "resources have the same handler and", "sibling parameter": "sibling parameters have different names and"}[kind] if "ok" in g else None, config=c, conflict=kind)
    o.extra = {"conflicting_configurations": kinds, "conflict_free_configurations": len(cs)}
    return o


# ---------------------------------------------------------------- C08, C15

ODD = ["a_b", "aB", "ABC", "user_posts", "UserPosts", "x__y", "trailing_", "_lead", "X9z", "é_t", "HTTPServer", "q", "Q", "snake_case_name", "CamelCaseName", "mixed_Case9", "__x"]


TYP = ["u32", "String", "Uuid", "Option", "Options", "Vec", "Result", "T", "Str", "str", "bool", "X_y", "UserId", "i8", "Self", "Cow", "Box"]


def rename(c, rnd, odd):
    """give actions and modules unusual names"""
    d = json.loads(json.dumps(c))
    ren = {}
    modn = {}
    types = {}
    n = [0]
    for r, _ in places(d):
        r["q"] = [[n, types.setdefault(t, rnd.choice(TYP + corpus.WORDS[:60]))] for n, t in r["q"]]
        for s in r["sub"]:
            if not isinstance(s["seg"], str):
                s["seg"][1] = types.setdefault(s["seg"][1], rnd.choice(TYP + corpus.WORDS[:60]))
        for x in r["res"]:
            key = (tuple(x["mods"]), x["name"])
            if key not in ren:
                n[0] += 1
                ren[key] = rnd.choice(odd) + ("%d" % n[0] if rnd.random() < .7 else "_k%d" % n[0])
            x["name"] = ren[key]
            x["q"] = [[n, types.setdefault(t, rnd.choice(TYP + corpus.WORDS[:60]))] for n, t in x["q"]]
            x["mods"] = [modn.setdefault(m, rnd.choice(odd) + rnd.choice(["m", "M", "_n", "_M"]) + str(len(modn))) for m in x["mods"]]
    return d


def shapes(seed, thorough):
    o = Outcome()
    rnd = random.Random("shape-%s" % seed)
    cs = list(corpus.fixed().values()) + rand_valid("shape-%s" % seed, 3000 if thorough else 500)
    odd = ODD + (corpus.WORDS[:60] if corpus.DEEP else [])
    for c in list(cs):
        d = rename(c, rnd, odd)
        if corpus.valid(d):
            cs.append(d)
    gens = batch([{"op": "gen", "cfg": c} for c in cs])
    ok = [(c, g["ok"]) for c, g in zip(cs, gens) if "ok" in g]
    xs = xbatch([{"src": g, "prefix": "crate"} for _, g in ok])
    for (c, g), x in zip(ok, xs):
        yield c, g, x, expected_shape(module_tree(tree(c)))


def walk(s, e, path=""):
    yield path, s, e
    for k in sorted(set(e["mods"]) | set((s or {}).get("mods", {}))):
        yield from walk((s or {}).get("mods", {}).get(k), e["mods"].get(k) or {"structs": {}, "mods": {}, "variants": [], "order": []}, path + k + "::")


def c08(seed, thorough):
    o = Outcome()
    skipped = 0
    for c, g, x, e in shapes(seed, thorough):
        if "shape" not in x:
            skipped += 1
            continue
        what = None
        for p, s, ex in walk(x["shape"], e):
            for k, f in ex["structs"].items():
                got = (s or {}).get("structs", {}).get(k)
                if got is not None and [z[:2] for z in got] != [z[:2] for z in f] and what is None:
                    what = "%s%s has fields %s, declared %s" % (p, k, [z[:2] for z in got], [z[:2] for z in f])
        o.case(json.dumps(c), what, config=c)
    o.extra = {"unreadable_outputs": skipped}
    return o


def c15(seed, thorough):
    o = Outcome()
    skipped = 0
    for c, g, x, e in shapes(seed, thorough):
        if "shape" not in x:
            skipped += 1
            continue
        what = None
        for p, s, ex in walk(x["shape"], e):
            s = s or {"structs": {}, "mods": {}, "variants": []}
            if sorted(s["structs"]) != sorted(ex["structs"]):
                what = "module %s has action types %s, declared %s" % (p or "(root)", sorted(s["structs"]), sorted(ex["structs"]))
            elif sorted(s["mods"]) != sorted(ex["mods"]):
                what = "module %s has submodules %s, declared %s" % (p or "(root)", sorted(s["mods"]), sorted(ex["mods"]))
            elif sorted(map(tuple, s["variants"])) != sorted(map(tuple, ex["variants"])):
                what = "module %s has variants %s, declared %s" % (p or "(root)", s["variants"], ex["variants"])
            if what:
                break
        o.case(json.dumps(c), what, config=c)
    o.extra = {"unreadable_outputs": skipped}
    return o


# ---------------------------------------------------------------- C09, C10, C17: texts

IDC = "abcXYZ019_gG"


def rident(rnd):
    if corpus.DEEP and rnd.random() < .12:
        n = rnd.choice(corpus.SIZES or guide.DEFAULT)
        return rnd.choice(corpus.WORDS) if corpus.WORDS and rnd.random() < .8 else rnd.choice(["x", "aB_", "é"]) * min(n, 300)
    if rnd.random() < .75:
        return "".join(rnd.choice(IDC) for _ in range(rnd.randint(1, 5)))
    return rnd.choice(["get", "GET", "post", "Put", "delete", "DELETEs", "é", "users", "中x", "getGET", "_", "Put_", "x" * 30])


def rparam(rnd):
    return [rident(rnd), rident(rnd)]


def rroutes(rnd, d, budget):
    # now and then many
    few = lambda ws: rnd.choice(ws) if not corpus.DEEP or rnd.random() < .97 else min(40, rnd.choice(corpus.SIZES or guide.DEFAULT))
    q = [rparam(rnd) for _ in range(few([0, 0, 1, 2, 3]))]
    rs = [{"m": rnd.choice(METHODS), "mods": [rident(rnd) for _ in range(few([0, 1, 1, 2, 3, 5]))], "name": rident(rnd), "redir": rnd.random() < .3,
           "q": [rparam(rnd) for _ in range(few([0, 0, 1, 2, 3]))]} for _ in range(few([0, 1, 1, 2, 4]))]
    sub = []
    if d > 0:
        for _ in range(few([1, 1, 2, 3]) if d > 3 else few([0, 1, 2, 3])):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            sub.append({"seg": rident(rnd) if rnd.random() < .6 else rparam(rnd), "routes": rroutes(rnd, d - 1, budget)})
    if not rs and not sub:
        rs = [{"m": rnd.choice(METHODS), "mods": [], "name": rident(rnd), "redir": rnd.random() < .3, "q": []}]
    return {"q": q, "res": rs, "sub": sub}


def rheader(rnd):
    if corpus.DEEP and corpus.WORDS and rnd.random() < .15:
        return rnd.choice(["", " ", "use "]) + rnd.choice(corpus.WORDS) + rnd.choice(["", ";", " x"])
    return rnd.choice(["use uuid::Uuid;", "x", "  indented", "a b / c", "-- /", "\tq", " ", "[a: B]", "GET Foo", "{x}", "é ü 中", "  GET Index", "use a::{b, c};", "\\n"])


def rexpressible(rnd, depth=None):
    d = depth if depth is not None else rnd.choice([0, 1, 2, 3, 4, 6, 9, 14])
    return {"headers": [rheader(rnd) for _ in range(rnd.choice([0, 0, 1, 2, 4]) if not corpus.DEEP or rnd.random() < .97 else min(60, rnd.choice(corpus.SIZES or guide.DEFAULT)))], "routes": rroutes(rnd, d, [rnd.choice([6, 20, 40])])}


def c09(seed, thorough):
    o = Outcome()
    rnd = random.Random("c09-%s" % seed)
    cs = [rexpressible(rnd) for _ in range(40000 if thorough else 5000)]
    cs += [rexpressible(rnd, d) for d in range(8, 40)]
    if corpus.DEEP:
        cs += [rexpressible(rnd, d) for d in sorted(set(corpus.SIZES + guide.DEFAULT)) if d < 130]
    for k in list(range(1, 12)) + (corpus.SIZES[:9] + [33, 65, 129] if corpus.DEEP else []):  # systematic: one chain of each depth, each kind of line at its end
        for leaf in (R([res("A")]), R([res("A", "POST", ["M", "N"], True, [["a", "B"], ["c", "D"]]), res("get", "PUT")]), R([res("A")], q=[["a", "B"]])):
            r = leaf
            for j in range(k):
                r = R([], [("s%d" % j if j % 2 else ["p", "T"], r)])
                if j % 3 == 2:
                    r["res"] = [res("Mid%d" % j, "DELETE")]
            cs.append(cfg(r, ["use x;"] if k % 2 else []))
    texts = batch([{"op": "stringify", "cfg": c} for c in cs])
    backs = batch([{"op": "parse", "text": t.get("ok", "")} for t in texts])
    for c, t, b in zip(cs, texts, backs):
        what = None
        if b.get("ok") != c or b.get("rest") != "":
            what = "printing and parsing back gives %s" % ("a rejected text" if "ok" not in b else "another configuration")
        o.case(json.dumps(c), what, config=c, text=t, parsed=b)
    # each block printer at every level, against the format
    rs = [(rroutes(rnd, 2, [6]), l) for l in list(range(0, 20)) + (corpus.SIZES + guide.DEFAULT if corpus.DEEP else []) for _ in range(6)]
    for (r, l), t in zip(rs, batch([{"op": "stringify_routes", "routes": r, "level": l} for r, l in rs])):
        o.case((json.dumps(r), l), None if t.get("ok") == refparse.show_routes(r, l) else "a block printed at level %d is not the declared lines" % l, routes=r, level=l, got=t)
    o.extra = {}
    return o


def mutate(t, rnd):
    ls = t.split("\n")
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        k = rnd.randrange(len(ls))
        w = rnd.randrange(20)
        if w == 0:
            ls[k] = " " + ls[k]
        elif w == 1:
            ls[k] = "  " + ls[k]
        elif w == 2:
            ls[k] = ls[k][1:]
        elif w == 3:
            ls[k] = ls[k][2:]
        elif w == 4:
            ls.insert(k, "")
        elif w == 5:
            ls.insert(k, rnd.choice(["  ", "garbage here", "/", "  GET X", "    [q: T]", "  foo", "  {a: B}", "    GET M::N", "\t", "# comment", "  [a: b]"] + [rnd.choice(["", " ", "  ", "    "]) + w + rnd.choice(["", " x", " comment"]) for w in corpus.RAW]))
        elif w == 6:
            del ls[k]
            if not ls:
                ls = [""]
        elif w == 7:
            ls[k] = ls[k] + rnd.choice([" ", "  x", ";", "\r", "::", "[a: b]", " Foo"])
        elif w == 8 and ls[k]:
            j = rnd.randrange(len(ls[k]))
            ls[k] = ls[k][:j] + ls[k][j + 1:]
        elif w == 9:
            j = rnd.randrange(len(ls[k]) + 1)
            ls[k] = ls[k][:j] + rnd.choice(list(" :[]{}/->_aZ0.-#,;'\"") + ["::", "->", "\r\n", "\n", "é", "  "] + corpus.RAW * 3) + ls[k][j:]
        elif w == 10:
            ls[k] = ls[k].lower() if rnd.random() < .5 else ls[k].upper()
        elif w == 11:
            j = rnd.randrange(len(ls))
            ls[k], ls[j] = ls[j], ls[k]
        elif w == 12:
            ls = [l + "\r" for l in ls[:-1]] + ls[-1:]
        elif w == 13:
            ls = ls[:k] + [""]
        elif w == 14:
            ls[k] = ls[k].replace("::", rnd.choice([" :: ", ":", "::::", ":: ", " ::", "::\n  "]))
        elif w == 15:
            ls[k] = ls[k].replace(": ", rnd.choice([":", " : ", "  ", " :\n "]))
        elif w == 16:
            ls[k] = ls[k].replace("[", rnd.choice(["[ ", "{", "", "[\n"])).replace("{", rnd.choice(["{ ", "[", "{"]))
        elif w == 17:
            ls[k] = ls[k].replace("]", rnd.choice([" ]", "}", "", "]]"])).replace("}", rnd.choice([" }", "]", "}"]))
        elif w == 18:
            ls[k] = ls[k].replace("->", rnd.choice([" ->", "->  ", "- >", "=>", "->->"])).replace("GET ", rnd.choice(["GET  ", "get ", "GeT ", "GET\t", "GET->", "GET -> "]))
        else:
            ls.insert(k, ls[rnd.randrange(len(ls))])
    t = "\n".join(ls)
    if rnd.random() < .05:
        t = t.rstrip("\n")
    if rnd.random() < .05:
        t += rnd.choice([" ", "\n", "\n\n", "x", "  GET Tail\n", "/\n", "\r\n"])
    return t


def c10(seed, thorough):
    o = Outcome()
    rnd = random.Random("c10-%s" % seed)
    texts = []
    for _ in range(60000 if thorough else 9000):
        c = rexpressible(rnd, rnd.choice([0, 1, 1, 2, 3, 4, 7]))
        t = refparse.show(c)
        for _ in range(rnd.choice([1, 2])):
            texts.append(mutate(t, rnd))
    # exhaustive: every short sequence of typical lines
    import itertools
    lines = ["/", "  GET A", "  foo", "    GET B", "    [q: T]", "  [q: T]", "", "use x;", "    bar", "      PUT C::D", "  {i: T}"]
    for n in (1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5):
        for ls in itertools.product(lines, repeat=n):
            texts.append("/\n" + "\n".join(ls) + "\n")
    for n in (1, 2, 3):
        for ls in itertools.product(lines, repeat=n):
            texts.append("\n".join(ls) + "\n")
    got = batch([{"op": "parse", "text": t} for t in texts])
    acc = 0
    for t, g in zip(texts, got):
        want = refparse.parse(t)
        acc += want is not None
        if want is None:
            what = "accepted, although it is not in the language" if "ok" in g else None
        elif "ok" not in g:
            what = "rejected, although it is in the language"
        elif g["rest"] != "":
            what = "accepted with text left over"
        elif g["ok"] != want:
            what = "parsed to another configuration than the text says"
        else:
            what = None
        if "panic" in g:
            what = "parsing panics"
        o.case(t, what, text=t, got=g, expected=want)
    o.extra = {"texts_in_the_language": acc, "texts_not_in_the_language": len(texts) - acc}
    return o


def show_error_oracle(t, pos, msg, prefix):
    b = t.encode()
    before = b[:pos].decode()
    line_no = before.count("\n") + 1
    start = before.rfind("\n") + 1
    line = t[start:].split("\n", 1)[0]
    col = len(before) - start
    gutter = "%4d:" % line_no
    return "%s%s%s\n%s%s%s^ %s\n" % (prefix, gutter, line, prefix, " " * len(gutter), " " * col, msg)


def rtext(rnd):
    if corpus.DEEP and rnd.random() < .2:
        w = corpus.WORDS + ["a", "é", "\n", "\t", " ", "a\n", "🦀"]
        return "".join(rnd.choice(w) * (min(600, rnd.choice(corpus.SIZES or guide.DEFAULT)) if rnd.random() < .3 else 1) for _ in range(rnd.randrange(1, 9)))
    return "".join(rnd.choice(["a", "bc", " ", "\n", "\n\n", "é", "中文", "\t", "\r\n", "🦀", "\r", "[x: Y]", "  GET", "\u0301", "line"]) for _ in range(rnd.randrange(0, 30)))


def c17(seed, thorough):
    o = Outcome()
    rnd = random.Random("c17-%s" % seed)
    reqs, want = [], []
    texts = [rtext(rnd) for _ in range(20000 if thorough else 3000)] + ["", "\n", "\n\n", "x", "é", "\né\n", "é\n", "a\n" * 12000 + "bé", "\n" * 9999 + "xé\nz", "\n" * 998 + "q", "ab\n" + "é" * 70000 + "x\ny"]
    for t in texts:
        bounds = [len(t[:i].encode()) for i in range(len(t) + 1)]
        prefix = rnd.choice(["", "", ">> ", "  ", "é|", "error: "])
        groups = []
        if len(t) <= 40:
            groups = [[p] for p in bounds]
        else:
            groups = [[p] for p in rnd.sample(bounds, min(20, len(bounds))) + bounds[-3:]]
        if len(bounds) > 2:
            groups.append(rnd.sample(bounds, min(3, len(bounds))))
        for at in groups:
            for failure in (False, True):
                reqs.append({"op": "show_at", "text": t, "at": at, "failure": failure, "prefix": prefix})
                want.append("".join(show_error_oracle(t, p, "Tag", prefix) for p in reversed(at)))
                if len(at) == 1:
                    reqs.append(dict(reqs[-1], single=True))
                    want.append(show_error_oracle(t, at[0], ("failure " if failure else "error ") + "Tag", prefix))
    got = batch(reqs)
    for r, g, w in zip(reqs, got, want):
        what = None
        if g.get("ok") != w:
            what = "reporting a failure at byte %s of a text %s" % (r["at"], "panics" if "panic" in g else "prints the wrong line, number or column")
        o.case((r["text"], tuple(r["at"]), r["failure"], r["prefix"]), what, request=r, got=g, expected=w)
    # reports of real parse failures: every pair of lines quotes a line of the text
    texts = [mutate(refparse.show(rexpressible(rnd, rnd.choice([0, 1, 2]))), rnd) for _ in range(3000 if thorough else 800)]
    for t, g in zip(texts, batch([{"op": "show_errors", "text": t, "prefix": "| "} for t in texts])):
        what = None
        if "ok" not in g:
            what = "reporting a parse failure panics"
        else:
            # stop at the line's own text: it may hold a carriage return
            rest = g["ok"]
            src = t.split("\n")
            while rest and what is None:
                m = re.match(r"\| ( *\d+):", rest)
                if not m or len(m.group(1)) < 4:
                    what = "a report line has no line number"
                    break
                k = int(m.group(1))
                if not (1 <= k <= len(src)) or not rest[m.end():].startswith(src[k - 1] + "\n"):
                    what = "a report quotes another line than it numbers"
                    break
                rest = rest[m.end() + len(src[k - 1]) + 1:]
                m = re.match(r"\| ( {5,})\^ [^\n]*\n", rest)
                if not m or len(m.group(1)) - 5 > len(src[k - 1]):
                    what = "a caret is not under its line"
                    break
                rest = rest[m.end():]
        o.case(("parse", t), what, text=t, got=g)
    o.extra = {"single_positions": len(reqs)}
    return o


# ---------------------------------------------------------------- C11, C12

def c11(seed, thorough):
    o = Outcome()
    rnd = random.Random("c11-%s" % seed)
    hs = ["a", "b", "c", "use x;", "use y;", "", "é"]
    reqs, want = [], []
    for _ in range(20000 if thorough else 3000):
        a, b = rexpressible(rnd, rnd.choice([0, 1, 2])), rexpressible(rnd, rnd.choice([0, 1, 2]))
        if rnd.random() < .1:
            a["routes"] = R()
        if rnd.random() < .1:
            b["routes"] = R()
        a["headers"] = [rnd.choice(hs) for _ in range(rnd.choice([0, 1, 2, 3, 5]))]
        b["headers"] = [rnd.choice(hs) for _ in range(rnd.choice([0, 1, 2, 3, 5]))]
        at = rnd.choice(["admin", "", "a/b", "/lead", "trail/", "//", " sp ", "A-b", "é", "{x}", "{x: T}", "x\ny", a["routes"]["sub"][0]["seg"] if a["routes"]["sub"] and isinstance(a["routes"]["sub"][0]["seg"], str) else "m", rident(rnd)])
        if rnd.random() < .15:
            at = "".join(rnd.choice(corpus.RAW + ["/", " ", "a", "B", "é", "{", "}", "_", ":", "-", "."]) for _ in range(rnd.choice([1, 2, 3, 5])))
            b["headers"] += [at, rnd.choice(a["headers"] + [""]) + at, at + " "]
        reqs.append({"op": "mount", "cfg": a, "other": b, "at": at})
        r = json.loads(json.dumps(a))
        r["headers"] = list(dict.fromkeys(a["headers"] + b["headers"]))
        r["routes"]["sub"].append({"seg": at, "routes": b["routes"]})
        want.append(r)
    for r, g, w in zip(reqs, batch(reqs), want):
        o.case(json.dumps(r), None if g.get("ok") == w else "mounting at %r does not keep both configurations whole" % r["at"], request=r, got=g, expected=w)
    o.extra = {}
    return o


MACRO = {"GET": "get", "POST": "post", "PUT": "put", "DELETE": "delete"}


def c12(seed, thorough, work):
    o = Outcome()
    rnd = random.Random("c12-%s" % seed)
    reqs, want = [], []
    for k in range(6000 if thorough else 1200):
        n = rnd.choice([1, 1, 2, 3, 4, 7, 12])
        h = [rident(rnd) for _ in range(n)]
        if rnd.random() < .2:
            h = [h[0]] * n
        m, rd, q = rnd.choice(METHODS), rnd.random() < .5, [rparam(rnd) for _ in range(rnd.choice([0, 1, 2, 4]))]
        reqs.append({"op": "make", "m": m, "handler": h, "redir": rd, "q": q})
        want.append({"m": m, "mods": h[:-1], "name": h[-1], "redir": rd, "q": q})
    for r, g, w in zip(reqs, batch(reqs), want):
        o.case(json.dumps(r), None if g.get("ok") == w else "building from %s gives something else" % json.dumps(r), request=r, got=g, expected=w)
    # the shorthand forms, compiled
    exprs = []
    rust_id = lambda: rnd.choice(["A", "Users", "List", "show_all", "x9", "B_c", "Zed", "posts", "Get", "post"]) + rnd.choice(["", "1", "Q"])
    for m in METHODS:
        for n in (1, 2, 3, 4, 6):
            for nq in (0, 1, 2, 3):
                h = [rust_id() for _ in range(n)]
                q = [[rnd.choice(["id", "q", "page"]) + str(j), rnd.choice(["u32", "String", "bool", "Uuid"])] for j in range(nq)]
                exprs.append(("%s!(%s%s)" % (MACRO[m], "::".join(h), "".join(", param!(%s: %s)" % tuple(p) for p in q)), m, h, False, q))
            h = [rust_id() for _ in range(n)]
            exprs.append(("%s!(-> %s)" % (MACRO[m], "::".join(h)), m, h, True, []))
    src = "use wayfinder::*;\nfn main() {\n" + "".join('    println!("{:?}", %s);\n' % e[0] for e in exprs)
    src += '    println!("{:?}", header!(use uuid::Uuid;));\n    println!("{:?}", param!(username: String));\n}\n'
    d = os.path.join(work, "macros")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(src)
    with open(os.path.join(run.VERIF, "harness", "Cargo.toml")) as f:
        toml = f.read().replace('name = "wfh"', 'name = "wfmacros"')
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml)
    with open(os.path.join(run.VERIF, "harness", "Cargo.lock")) as f:
        lock = f.read().replace('name = "wfh"', 'name = "wfmacros"')
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock)
    env = dict(os.environ, CARGO_TARGET_DIR=run.TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        o.case("macros", "a shorthand form does not compile: " + p.stderr[-1500:], source=src)
    else:
        out = subprocess.run([os.path.join(run.TARGET, "debug", "wfmacros")], capture_output=True, text=True)
        got = out.stdout.splitlines()
        s = lambda l: "[" + ", ".join(json.dumps(x) for x in l) + "]"
        for k, (e, m, h, rd, q) in enumerate(exprs):
            w = "Resource { method: %s, modules: %s, name: %s, is_redirect: %s, query_parameters: [%s] }" % (
                m.capitalize(), s(h[:-1]), json.dumps(h[-1]), str(rd).lower(), ", ".join("Param { name: %s, typ: %s }" % (json.dumps(a), json.dumps(b)) for a, b in q))
            g = got[k] if k < len(got) else "(nothing: %s)" % out.stderr[-300:]
            o.case(e, None if g == w else "%s gives %s" % (e, g), expression=e, got=g, expected=w)
        for g, w in zip(got[len(exprs):], ['Header { text: "use uuid::Uuid;" }', 'Param { name: "username", typ: "String" }']):
            o.case(w, None if g == w else "a shorthand gives %s" % g, got=g, expected=w)
    o.extra = {"macro_invocations_compiled_and_run": len(exprs) + 2}
    return o


# ---------------------------------------------------------------- C13, C14

def many_modules(rnd, n):
    """many actions and modules at several levels, in random order"""
    a = corpus.Auto()
    mods = ["M%02d" % k for k in range(12)]
    if corpus.DEEP and rnd.random() < .6:
        # long names that differ late, or in their letter case only
        pre = "".join(rnd.choice("abxy_Z9") for _ in range(min(200, rnd.choice(corpus.SIZES + guide.DEFAULT))))
        mods = ["M" + pre + rnd.choice(["x%02d", "X%02d", "_%02d", "%02d"]) % k for k in range(12)]
        names = ["A" + pre + "%s%d" % (rnd.choice("xXyY_"), k) for k in rnd.sample(range(100), 100)]
        a = lambda m="GET", ms=(): res(names.pop() if names else "Z%d" % rnd.randrange(10 ** 9), m, ms)
    subs = []
    for k in range(n):
        ms = rnd.sample(mods, rnd.choice([0, 1, 1, 2, 2, 3]))
        subs.append(("s%d" % k, R([a(m, ms) for m in rnd.sample(METHODS, rnd.choice([1, 2, 3]))])))
    rnd.shuffle(subs)
    return cfg(R([a()], subs))


def c13(seed, thorough):
    o = Outcome()
    rnd = random.Random("c13-%s" % seed)
    cs = [many_modules(rnd, rnd.choice([3, 10, 30])) for _ in range(300 if thorough else 60)]
    cs = [c for c in cs if corpus.valid(c)] + list(corpus.fixed().values()) + rand_valid("c13-%s" % seed, 600 if thorough else 100)
    reqs = [{"op": "gen", "cfg": c} for c in cs]
    runs = []
    with cf.ThreadPoolExecutor(6) as ex:
        runs = list(ex.map(lambda _: run.wfh(reqs + reqs), range(6)))
    xs = xbatch([{"src": g.get("ok", "pub mod routes {}"), "prefix": "crate"} for g in runs[0][:len(cs)]])
    for k, c in enumerate(cs):
        texts = {json.dumps(r[j]) for r in runs for j in (k, k + len(cs))}
        what = None
        if len(texts) != 1:
            what = "%d different outputs from equal configurations" % len(texts)
        elif "shape" in xs[k]:
            for p, s, e in walk(xs[k]["shape"], expected_shape(module_tree(tree(c)))):
                if s is not None and s["order"] != e["order"] and sorted(s["order"]) == sorted(e["order"]):
                    what = "module %s is not sorted by name: %s" % (p or "(root)", s["order"])
        o.case(json.dumps(c), what, config=c, outputs=[json.loads(t) for t in list(texts)[:2]] if what else [])
    o.extra = {"generations_per_configuration": 12, "processes": 6}
    return o


def c14(seed, thorough):
    o = Outcome()
    rnd = random.Random("c14-%s" % seed)
    f = corpus.fixed()
    names = ["root_only", "many_literals_beside_dyn", "redirects", "query", "modules", "nested_mix", "prefix_chain", "shared_beside_dyn", "dyn_then_two_lits", "wide", "shadow", "two_one_char"]
    cs = [f[n] for n in names if n in f] + rand_valid("c14-%s" % seed, 6 if thorough else 2)
    if corpus.DEEP:
        cs += guide.sizes_of(rnd, 40)
    whole = batch([{"op": "gen_limited", "cfg": c} for c in cs])
    texts = [g.get("ok") for g in batch([{"op": "gen", "cfg": c} for c in cs])]
    reqs, meta = [], []
    for c, t, w in zip(cs, texts, whole):
        if t is None or "calls" not in w:
            continue
        n = len(t.encode())
        if n > 100000:
            continue
        # every write call fails once, in three ways
        for mode, step in (("once", 1), ("always", 1 if thorough else 3), ("zero", 1 if thorough else 7)):
            for k in range(rnd.randrange(step), w["calls"], step):
                reqs.append({"op": "gen_limited", "cfg": c, "call": k, "mode": mode})
                meta.append((t, n))
        step = max(1, n // (1500 if thorough else 250))
        for left in list(range(0, n, step)) + [n - 1]:
            reqs.append({"op": "gen_limited", "cfg": c, "left": left, "mode": rnd.choice(["once", "always"])})
            meta.append((t, n))
        for short in (1, 2, 7, 100):
            reqs.append({"op": "gen_limited", "cfg": c, "short": short})
            meta.append((t, n))
        reqs.append({"op": "gen_limited", "cfg": c, "left": n})
        meta.append((t, n))
    sums = {t: fnv(t.encode()) for t in {t for t, _ in meta}}
    for r, g, (t, n) in zip(reqs, batch(reqs), meta):
        what = None
        if "is_ok" not in g:
            what = "generation panics when the output fails" if r.get("short") is None else "generation panics"
        elif g["failed"] and g["is_ok"]:
            what = "a write failed and generation reports success"
        elif g["is_ok"] and (g["len"], g["sum"]) != (n, sums[t]):
            what = "generation reports success but the output does not hold everything"
        elif not g["failed"] and not g["is_ok"]:
            what = "generation fails although every write was accepted"
        o.case(json.dumps(r), what, request=r, got=g)
    o.extra = {"write_calls": sum(w.get("calls", 0) for w in whole)}
    return o


# ---------------------------------------------------------------- C18

def c18(seed, thorough, work):
    o = Outcome()
    rnd = random.Random("c18-%s" % seed)
    base = os.path.join(work, "b")
    os.makedirs(base)
    f = corpus.fixed()
    good = [f["redirects"], f["query"], f["two_one_char"], f["modules"]] + [c for c in rand_valid("c18-%s" % seed, 12 if thorough else 4)]
    texts = [run.wfh([{"op": "stringify", "cfg": c}])[0]["ok"] for c in good]
    gens = [g.get("ok") for g in run.wfh([{"op": "gen", "text": t} for t in texts])]
    count = [0]
    jobs = []

    def scenario(name, args, want, files=(), env=None, limit=None, stdout=None, out=None, pre=None, unlink_out=False):
        """want: None = must end with a failure status; else the exact text that must be in `out` (or on stdout)"""
        jobs.append((name, args, want, list(files), env, limit, stdout, out, pre))

    for t, g, c in zip(texts, gens, good):
        if g is None:
            continue
        j = json.dumps(c)
        cg = run.wfh([{"op": "gen", "cfg": c}])[0]["ok"]
        n = len(g.encode())
        scenario("file to file", ["--in", "D/app.routes", "--out", "D/o.rs"], g, [("app.routes", t)], out="o.rs")
        scenario("file to file, setters in the other order", ["--out-first", "--in", "D/app.routes", "--out", "D/o.rs"], g, [("app.routes", t)], out="o.rs")
        scenario("over a longer file", ["--in", "D/app.routes", "--out", "D/o.rs"], g, [("app.routes", t), ("o.rs", "x" * (n + 999))], out="o.rs")
        scenario("file to stdout", ["--in", "D/app.routes", "--stdout", "1"], g, [("app.routes", t)])
        scenario("config to file", ["--cfg", j, "--out", "D/o.rs"], cg, out="o.rs")
        scenario("config to stdout", ["--cfg", j, "--stdout", "1"], cg)
        scenario("cargo directories", ["--env", "--in", "app.routes", "--out", "o.rs"], g, [("src/app.routes", t), ("tgt/.keep", "")], env={"CARGO_MANIFEST_DIR": "D/src", "OUT_DIR": "D/tgt"}, out="tgt/o.rs")
        scenario("cargo directories, config", ["--env", "--cfg", j, "--out", "o.rs"], cg, [("tgt/.keep", "")], env={"CARGO_MANIFEST_DIR": "D/src", "OUT_DIR": "D/tgt"}, out="tgt/o.rs")
        scenario("no source", ["--out", "D/o.rs"], None)
        scenario("no target, file", ["--in", "D/app.routes"], None, [("app.routes", t)])
        scenario("no target, config", ["--cfg", j], None)
        scenario("missing file", ["--in", "D/nope.routes", "--out", "D/o.rs"], None)
        scenario("a folder as input", ["--in", "D", "--out", "D/o.rs"], None)
        scenario("not UTF-8", ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", t.encode() + b"\xff\n")])
        scenario("empty file", ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", "")])
        for _ in range(6):
            m = mutate(t, rnd)
            mg = run.wfh([{"op": "gen", "text": m}])[0].get("ok") if refparse.parse(m) else None
            scenario("a changed text", ["--in", "D/app.routes", "--out", "D/o.rs"], mg, [("app.routes", m)], out="o.rs")
        for m in ("\ufeff" + t, t.replace("\n", "\r\n"), "\n" + t, " " + t, t + "\n\n", "use a;\n\n\nuse b;\n" + t, t.replace("\n", "\n\n")):
            mg = run.wfh([{"op": "gen", "text": m}])[0].get("ok") if refparse.parse(m) else None
            scenario("another text", ["--in", "D/app.routes", "--out", "D/o.rs"], mg, [("app.routes", m)], out="o.rs")
        scenario("cargo directories, absolute paths", ["--env", "--in", "D/x/app.routes", "--out", "D/y/o.rs"], g, [("x/app.routes", t), ("y/.keep", ""), ("src/.keep", ""), ("tgt/.keep", "")], env={"CARGO_MANIFEST_DIR": "D/src", "OUT_DIR": "D/tgt"}, out="y/o.rs")
        scenario("names with spaces", ["--in", "D/a b/my app.txt", "--out", "D/o ut/r s"], g, [("a b/my app.txt", t), ("o ut/.keep", "")], out="o ut/r s")
        scenario("text left over", ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", t + "trailing garbage")])
        scenario("text left over after a newline", ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", t + "\n  oops oops\n")])
        scenario("cut short", ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", t.rstrip("\n"))])
        scenario("no output folder", ["--in", "D/app.routes", "--out", "D/none/o.rs"], None, [("app.routes", t)])
        scenario("a folder as output", ["--in", "D/app.routes", "--out", "D/dir"], None, [("app.routes", t), ("dir/x", "")])
        scenario("full device", ["--in", "D/app.routes", "--out", "/dev/full"], None, [("app.routes", t)])
        scenario("full device, config", ["--cfg", j, "--out", "/dev/full"], None)
        scenario("stdout on a full device", ["--in", "D/app.routes", "--stdout", "1"], None, [("app.routes", t)], stdout="/dev/full")
        for src in (["--in", "D/app.routes"], ["--cfg", j]):
            scenario("stdout closed by its reader", src + ["--stdout", "1"], None, [("app.routes", t)], stdout="closed pipe")
            scenario("stdout that would block", src + ["--stdout", "1"], None, [("app.routes", t)], stdout="blocked pipe")
            scenario("a pipe closed by its reader as output", src + ["--out", "/dev/fd/1"], None, [("app.routes", t)], stdout="closed pipe")
            scenario("a symlink loop as output", src + ["--out", "D/loop"], None, [("app.routes", t), ("loop", None)])
            scenario("a name too long as output", src + ["--out", "D/" + "x" * 300], None, [("app.routes", t)])
        scenario("a symlink loop as input", ["--in", "D/loop", "--out", "D/o.rs"], None, [("loop", None)])
        scenario("missing CARGO_MANIFEST_DIR", ["--env", "--in", "app.routes", "--out", "o.rs"], None, env={"OUT_DIR": "D"})
        scenario("missing OUT_DIR", ["--env", "--in", "app.routes", "--out", "o.rs"], None, [("app.routes", t)], env={"CARGO_MANIFEST_DIR": "D"})
        for lim in [0, 1, n // 3, n // 2, n - 1] + [rnd.randrange(n) for _ in range(12 if thorough else 3)]:
            scenario("output fails after %d bytes" % lim, ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", t)], limit=lim)
        scenario("output just fits", ["--in", "D/app.routes", "--out", "D/o.rs"], g, [("app.routes", t)], limit=max(n, 64), out="o.rs")
    for kind, c in fixed_conflicts():
        scenario("conflicting %s, config" % kind, ["--cfg", json.dumps(c), "--out", "D/o.rs"], None)
        tx = run.wfh([{"op": "stringify", "cfg": c}])[0]["ok"]
        scenario("conflicting %s, file" % kind, ["--in", "D/app.routes", "--out", "D/o.rs"], None, [("app.routes", tx)])

    # sizes around what a reader may take at once, up to a megabyte
    for size in sorted({4096, 8192, 65536, 131072, 1 << 20} | {x for x in corpus.SIZES if x > 3}):
        for header in (False, True):
            w = "/\n  GET Index\n" if header else "/\n" + "".join("  r%d\n    GET A%d\n" % (k, k) for k in range(min(400, size // 40)))
            fill = "x" * min(70, size)
            t = "".join("use %s%d;\n" % (fill, k) for k in range(size // 80 + 1)) + "\n" + w if header else w + "  last\n    GET L%s\n" % ("x" * max(0, size - len(w)))
            g = run.wfh([{"op": "gen", "text": t}])[0].get("ok")
            if g is not None and refparse.parse(t) is not None:
                scenario("a file of %d bytes" % len(t), ["--in", "D/app.routes", "--out", "D/o.rs"], g, [("app.routes", t)], out="o.rs")
                scenario("a file of %d bytes, to standard output" % len(t), ["--in", "D/app.routes", "--stdout", "1"], g, [("app.routes", t)])

    def go(kj):
        k, (name, args, want, files, env, limit, stdout, out, pre) = kj
        d = os.path.join(base, str(k))
        os.makedirs(d)
        for fn, content in files:
            p = os.path.join(d, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if content is None:
                os.symlink(fn, p)
                continue
            with open(p, "wb") as fh:
                fh.write(content if isinstance(content, bytes) else content.encode())
        sub = lambda a: d + a[1:] if a == "D" or a.startswith("D/") else a
        e = {"PATH": os.environ["PATH"]}
        for kk, v in (env or {}).items():
            e[kk] = sub(v)
        args2 = [sub(a) for a in args] + ["--returned", os.path.join(d, "returned")]

        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        rd = None
        if stdout == "closed pipe":
            rd, so = os.pipe()
            os.close(rd)
            rd = None
        elif stdout == "blocked pipe":
            rd, so = os.pipe()
            fcntl.fcntl(so, fcntl.F_SETPIPE_SZ, 4096)
            os.set_blocking(so, False)
        else:
            so = open(stdout, "wb") if stdout else subprocess.PIPE
        try:
            p = subprocess.run([run.WFH, "builder"] + args2, cwd=d, env=e, stdout=so, stderr=subprocess.PIPE, preexec_fn=pre, timeout=60)
        except subprocess.TimeoutExpired:
            shutil.rmtree(d)
            return name, args, files, env, limit, "no end within 60 s"
        finally:
            if isinstance(so, int) and so != subprocess.PIPE:
                os.close(so)
            if rd is not None:
                os.close(rd)
        # the marker itself cannot be written under a tiny limit: the exit status decides
        returned = os.path.exists(os.path.join(d, "returned"))
        if want is None:
            bad = "the build step ends with status %d" % p.returncode if p.returncode == 0 else ("the build step returns" if returned else None)
        elif p.returncode != 0 or not returned:
            bad = "the build step fails (status %d) although nothing is wrong: %s" % (p.returncode, p.stderr[-300:].decode("utf8", "replace"))
        else:
            if out:
                try:
                    with open(os.path.join(d, out), "rb") as fh:
                        got = fh.read().decode("utf8", "replace")
                except OSError as x:
                    got = "unreadable: %s" % x
            else:
                got = p.stdout.decode("utf8", "replace")
                if "--env" in args:
                    got = "\n".join(l for l in got.split("\n") if not l.startswith("cargo:"))
            bad = None if got == want else "the build step returns but the output is not the whole module (%d bytes of %d)" % (len(got), len(want))
        shutil.rmtree(d)
        return name, args, files, env, limit, bad

    with cf.ThreadPoolExecutor(8) as ex:
        for name, args, files, env, limit, bad in ex.map(go, enumerate(jobs)):
            o.case((name, str(args), str(files)), "%s: %s" % (name, bad) if bad else None, scenario=name, args=args, files=[(a, b if isinstance(b, str) or b is None else b.decode("latin1")) for a, b in files], env=env, byte_limit=limit)
    o.extra = {"scenarios": len(jobs)}
    return o
