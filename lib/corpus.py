"""Which configurations the per-configuration proofs are run on."""
import random
from conf import *

H = ["use crate::types::*;"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lam", "Mu", "Nu", "Xi", "Omi", "Pi", "Rho", "Sig", "Tau", "Ups"]


class Auto:
    """hands out distinct action names"""

    def __init__(self):
        self.n = 0

    def __call__(self, m="GET", mods=(), q=None):
        self.n += 1
        k = self.n - 1
        return res(NAMES[k % 20] + ("" if k < 20 else str(k // 20)), m, mods, False, q)


def fixed():
    out = {}
    a = Auto()

    def leaf(*ms):
        return R([a(m) for m in (ms or ("GET",))])

    out["root_only"] = R([a()])
    out["root_all_methods"] = R([a(m) for m in METHODS])
    out["root_methods_reversed"] = R([a(m) for m in reversed(METHODS)])
    out["one_literal"] = R([], [("about", leaf())])
    out["root_and_literal"] = R([a()], [("about", leaf("POST"))])
    out["two_literals"] = R([a()], [("zoo", leaf()), ("bar", leaf())])
    out["three_sharing"] = R([], [("foobar", leaf()), ("fomo", leaf("PUT")), ("foosh", leaf())])
    out["prefix_chain"] = R([], [("a", leaf()), ("abc", leaf()), ("ab", leaf("DELETE")), ("b", leaf())])
    out["prefix_no_resource"] = R([], [("user", R([], [("x", leaf())])), ("users", leaf())])
    out["one_char"] = R([], [("n", leaf()), (["id", "String"], leaf())])
    out["one_char_chain"] = R([], [("a", R([a()], [("b", R([a()], [("c", leaf())]))]))])
    out["two_one_char"] = R([], [("x", leaf()), ("y", leaf())])
    out["root_dynamic"] = R([], [(["id", "u32"], leaf("GET", "DELETE"))])
    out["root_and_dynamic"] = R([a()], [(["id", "String"], leaf())])
    out["dyn_then_lit"] = R([], [("users", R([a()], [(["id", "u32"], R([a("PUT")], [("edit", leaf())]))]))])
    out["dyn_then_two_lits"] = R([], [(["id", "u32"], R([a()], [("edit", leaf()), ("remove", leaf("DELETE"))]))])
    out["dyn_dyn"] = R([], [(["org", "String"], R([a()], [(["repo", "String"], R([a()], [(["num", "u32"], leaf())]))]))])
    out["dyn_gap_dyn"] = R([], [(["org", "String"], R([], [("r", R([], [(["repo", "String"], leaf())]))]))])
    out["literal_beside_dyn"] = R([], [("people", R([a()], [("new", leaf()), (["id", "Uuid"], leaf("GET", "PUT"))]))])
    out["literal_children_beside_dyn"] = R([], [("new", R([], [("it", leaf())])), (["id", "String"], R([], [("it", leaf())]))])
    out["two_literals_beside_dyn"] = R([], [("new", leaf()), ("list", R([a()], [("all", leaf())])), (["id", "u32"], R([a()], [("edit", leaf())]))])
    out["many_literals_beside_dyn"] = R([a()], [("aa", leaf()), ("ab", leaf()), ("b", leaf()), ("ccc", R([], [(["z", "u32"], leaf())])), (["id", "String"], leaf())])
    out["prefix_beside_dyn"] = R([], [("new", leaf()), ("news", leaf()), (["id", "String"], leaf())])
    out["shared_beside_dyn"] = R([], [("foobar", leaf()), ("fomo", leaf()), ("foosh", leaf()), (["a", "String"], leaf())])
    out["shared_beside_dyn_deep"] = R([], [("x", R([], [("ab", leaf()), ("ac", R([], [("y", leaf())])), (["a", "u32"], R([a()], [("y", leaf())]))]))])
    d = R([a()])
    for k in range(9, -1, -1):
        d = R([a()] if k % 2 else [], [("lv%d" % k if k % 3 else ["p%d" % k, "u32"], d)])
    out["deep"] = d
    out["names"] = R([], [("A_b9", leaf()), ("x_y", R([], [(["under_score", "u32"], leaf())])), ("UPPER", leaf()), ("123", leaf())])
    out["shadow"] = R([], [("s", R([], [(["start", "usize"], R([a()], [(["len", "usize"], R([a()], [(["i", "usize"], leaf())]))]))])),
                           ("t", R([], [(["text", "String"], R([a()], [(["path", "String"], R([a()], [(["method", "String"], leaf())]))]))])),
                           ("u", R([], [("q", leaf()), ("r", leaf()), (["end", "usize"], R([a()], [("v", leaf()), ("w", leaf()), (["e", "usize"], leaf())]))])),
                           ("v", R([], [(["i", "usize"], R([a()], [(["param_i", "usize"], R([a()], [(["param_param_i", "usize"], leaf())]))]))]))])
    out["letter_case"] = R([], [("Apple", leaf()), ("avocado", leaf()), ("aPPle", R([a()], [(["UserId", "u32"], R([a()], [("New", leaf()), ("new", leaf("POST"))]))])),
                                ("Zed", R([a()], [("zed", leaf()), ("zoo", leaf()), ("Zoo", leaf()), (["zId_2", "i64"], leaf())]))])
    out["long_names"] = R([], [("a_rather_long_literal_segment_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789", R([a()], [(["a_rather_long_parameter_name", "u32"], leaf("GET", "POST", "PUT", "DELETE"))]))])
    out["modules"] = R([a()], [
        ("m1", R([a(mods=["Users"]), a("POST", mods=["Users", "Admin"])], [(["id", "u32"], R([a("PUT", mods=["Users", "Admin", "DeepOne"]), a("DELETE", mods=["other_mod"])]))])),
        ("m2", R([a(mods=["Users"]), a("POST", mods=["Zed", "Admin"]), a("PUT", mods=["Users", "Admin", "DeepOne", "Deeper"])]))])
    out["action_names"] = R([], [("c1", R([res("show_all", "GET"), res("lower", "POST", ["UserPosts"])])), ("c2", R([res("Mixed_case_name", "PUT", ["UserPosts", "snake_mod"])]))])
    out["query"] = R([a(q=[["own", "u32"]])], [
        ("qa", R([a(q=[["x", "String"], ["y", "bool"]]), a("POST")], [
            (["id", "u32"], R([a(q=[["z", "u32"]])], [("leaf", leaf())], q=[["d1", "String"], ["d2", "u32"]]))], q=[["mid", "bool"]])),
        ("qb", R([a()]))], q=[["top", "String"], ["top2", "Uuid"]])
    out["redirects"] = R([res("Home", "GET"), res("Home", "POST", redir=True)], [
        ("old", R([res("Home", "GET", redir=True)])),
        ("p", R([], [(["id", "u32"], R([res("Page", "GET", ["Pages"])]))])),
        ("legacy", R([], [(["id", "u32"], R([res("Page", "GET", ["Pages"], True), res("Page", "DELETE", ["Pages"], True)], [("x", R([res("Page", "GET", ["Pages"], True)]))]))]))])
    out["redirect_query"] = R([], [("a", R([res("Find", "GET", q=[["q", "String"]])])), ("b", R([res("Find", "GET", ["M"], q=[["k", "u32"]])])),
                                   ("ra", R([res("Find", "GET", redir=True)], q=[["q", "String"]])), ("rb", R([res("Find", "PUT", ["M"], True, [["k", "u32"]])]))])
    out["same_param_two_branches"] = R([], [("l", R([], [(["id", "u32"], leaf())])), ("r", R([], [(["id", "String"], R([a()], [("id", leaf())]))]))])
    out["empty_middle"] = R([], [("a", R([], [("b", R([], [("c", R([], [("d", leaf())]))]))]))])
    out["wide"] = R([a()], [(x, leaf()) for x in ["apple", "apricot", "banana", "cherry", "blueberry", "date", "cranberry", "apply"]])
    out["nested_mix"] = R([a()], [("api", R([], [("v1", R([], [("items", R([a(), a("POST")], [(["id", "i64"], R([a(), a("PUT"), a("DELETE")], [("tags", R([a()], [(["tag", "String"], leaf("DELETE"))]))]))]))])),
                                                       ("v2", R([], [("items", R([a()], [(["id", "Uuid"], leaf())]))]))]))])
    return {k: cfg(v, H) for k, v in out.items()}


def small():
    """every tree over a tiny alphabet, two levels: siblings drawn from {a, ab, b, {x}} each bare, or with one child"""
    out = {}
    import itertools
    segs = ["a", "ab", "b", ["x", "u32"]]
    k = 0
    for n in range(1, 5):
        for chosen in itertools.combinations(range(4), n):
            for variant in range(4):
                a = Auto()
                subs = []
                for j in chosen:
                    v = (variant + j) % 4
                    if v == 0:
                        r = R([a()])
                    elif v == 1:
                        r = R([], [("c", R([a()]))])
                    elif v == 2:
                        r = R([a("POST")], [(["y", "String"], R([a()]))])
                    else:
                        r = R([a()], [("a", R([a("PUT")])), (["y", "u32"], R([a()]))])
                    subs.append((segs[j], r))
                out["small_%d" % k] = cfg(R([a()] if variant % 2 else [], subs), H)
                k += 1
    return out


LITS = ["a", "b", "ab", "abc", "ac", "foo", "foobar", "fob", "new", "news", "edit", "x1", "users", "user", "Z", "q_q", "list", "n", "0", "42", "Foo", "aB", "New", "Users", "A", "edit_all", "X1", "a1b2", "_x", "x_", "list2"]
TYPES = ["u32", "String", "Uuid", "i64", "bool", "usize"]
MODS = ["Users", "Posts", "snake_mod", "DeepMod", "A"]
PNAMES = ["id", "slug", "n", "name", "page", "k", "len", "text", "start", "i", "end", "path", "method", "param_i", "param_path", "param_end", "userId", "ID", "Page_No", "_n", "x2", "param_", "text_", "e", "r", "_0"]

# from lib/guide.py, when the source is not the accepted text
DEEP = False
SIZES = []
FOUND = []
WORDS = []
RAW = []
_RAW = (list(LITS), list(PNAMES))


def enrich(words):
    import guide
    LITS[:] = _RAW[0] + [w for w in words if guide.lit(w) and w not in _RAW[0]][:40]
    PNAMES[:] = _RAW[1] + [w for w in words if guide.par(w) and w not in _RAW[1]][:30]
    WORDS[:] = words


def rand_config(rnd, depth=4, width=4, weird=True):
    a = Auto()
    count = [0]
    declared = []

    def methods(node_dyn, inh):
        out = []
        ms = rnd.sample(METHODS, rnd.choice([0, 1, 1, 1, 2, 2, 3, 4]))
        for m in ms:
            if count[0] >= 24:
                break
            mods = rnd.sample(MODS, rnd.choice([0, 0, 1, 1, 2, 3]))
            used = {x[0] for x in node_dyn} | {x[0] for x in inh}
            q = [[n, rnd.choice(TYPES)] for n in rnd.sample(["qa", "qb", "qc", "qd"], rnd.choice([0, 0, 0, 1, 2])) if n not in used]
            r = a(m, mods, q)
            count[0] += 1
            out.append(r)
            declared.append((list(node_dyn), list(inh), r))
        return out

    def go(d, dyn, inh):
        used = {x[0] for x in dyn} | {x[0] for x in inh}
        q = []
        if rnd.random() < 0.25:
            q = [[n, rnd.choice(TYPES)] for n in rnd.sample(["q1", "q2", "q3", "q4"], rnd.choice([1, 2])) if n not in used]
        inh = inh + q
        rs = methods(dyn, inh)
        sub = []
        if d > 0:
            n = rnd.choice([0, 1, 1, 2, 2, 3, width])
            for l in rnd.sample(LITS, n):
                sub.append((l, go(d - 1, dyn, inh)))
            if rnd.random() < 0.4:
                used = {x[0] for x in dyn} | {x[0] for x in inh}
                nm = rnd.choice([p for p in PNAMES if p not in used])
                p = [nm, rnd.choice(TYPES)]
                sub.append((p, go(d - 1, dyn + [p], inh)))
            rnd.shuffle(sub)
        sub = [(s, r) for s, r in sub if r is not None]
        if not rs and not sub:
            if count[0] >= 24:
                return None
            r = a("GET", [], [])
            count[0] += 1
            declared.append((list(dyn), list(inh), r))
            rs = [r]
        return R(rs, sub, q)

    r = go(depth, [], [])
    # a few redirects: to an action whose fields this place can supply
    def places(rt, dyn, inh):
        inh = inh + rt["q"]
        yield rt, dyn, inh
        for s in rt["sub"]:
            d = dyn + ([s["seg"]] if not isinstance(s["seg"], str) else [])
            yield from places(s["routes"], d, inh)
    for rt, dyn, inh in places(r, [], []):
        free = [m for m in METHODS if m not in [x["m"] for x in rt["res"]]]
        if not free or rnd.random() < 0.6:
            continue
        for tdyn, tinh, t in rnd.sample(declared, len(declared)):
            tq = tinh + t["q"]
            if sorted(tdyn) == sorted(dyn) and all(x in tq for x in inh):
                own = [x for x in tq if x not in inh]
                rt["res"].append(res(t["name"], rnd.choice(free), t["mods"], True, own))
                break
    return cfg(r, H)


def valid(c):
    """The configurations the routing properties speak about."""
    try:
        root = tree(c)
    except Conflict:
        return False
    seen = {}
    acts = {}
    mods = {}
    for n in root.all():
        if not n.res and not n.lits and not n.dyn:
            return False
        if len({r["m"] for r in n.res}) != len(n.res):
            return False
        names = [s[0] for s in n.dynamics()] + [q[0] for q in n.q]
        if len(set(names)) != len(names):
            return False
        for r in n.res:
            f = [x[0] for x in action_fields(n, r)]
            if len(set(f)) != len(f):
                return False
            h = (tuple(r["mods"]), r["name"])
            if not r["redir"]:
                seen[h] = set(action_fields(n, r))
                sp = acts.setdefault(tuple(r["mods"]), set())
                if caps(r["name"]) in sp:
                    return False
                sp.add(caps(r["name"]))
                for k in range(len(r["mods"])):
                    mods.setdefault(tuple(r["mods"][:k]), set()).add(r["mods"][k])
    for h, ms in mods.items():
        cs = [caps(m) for m in ms]
        if len(set(cs)) != len(cs) or set(cs) & acts.get(h, set()) or len({snake(m) for m in ms}) != len(ms):
            return False
    for n in root.all():
        for r in n.res:
            if r["redir"] and seen.get((tuple(r["mods"]), r["name"])) != set(action_fields(n, r)):
                return False
    return True


def shuffled(c, rnd):
    """the same configuration with siblings and resources in another order"""
    def go(r):
        s = [{"seg": x["seg"], "routes": go(x["routes"])} for x in r["sub"]]
        rs = list(r["res"])
        rnd.shuffle(s)
        rnd.shuffle(rs)
        return {"q": r["q"], "res": rs, "sub": s}
    return {"headers": c["headers"], "routes": go(c["routes"])}


def corpus(seed, n_random):
    out = dict(fixed())
    out.update(small())
    rnd = random.Random("corpus-%s" % seed)
    k = 0
    while k < n_random:
        c = rand_config(rnd, depth=rnd.choice([2, 3, 3, 4, 5]), width=rnd.choice([3, 4, 5]))
        if valid(c):
            out["random_%d" % k] = c
            k += 1
    for n, c in out.items():
        assert valid(c), n
    return out


def count(c):
    root = tree(c)
    return sum(1 for _ in root.all()), sum(len(n.res) for n in root.all())
