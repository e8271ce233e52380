"""Where to look for a failing input when the source is not the text that was
last accepted.  guide/reference is a copy of that text.  It never decides
anything: configurations on which the two generate different texts are added
to the ones that are judged (by the specification, like every other), the
literals the change brings are added to the names that are tried, and the
bounded searches go deeper.  On the accepted text nothing here runs."""
import concurrent.futures as cf
import os, random, re, subprocess
import conf, corpus, run
from conf import *

REF = os.path.join(run.VERIF, "guide", "reference", "src")
SRC = "/repo/wayfinder/src"
WFREF = os.path.join(run.TARGET, "debug", "wfref")
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:[^"\\]|\\.)*"|b?\'(?:[^\'\\]|\\[^u]|\\x..|\\u\{[^}]*\})\'|[A-Za-z_]\w*|\d\w*|\s+|.', re.S)


def tokens(path):
    try:
        t = open(path, encoding="utf8").read()
    except (OSError, ValueError):
        return []
    return [m.group(0) for m in TOKEN.finditer(t) if not m.group(0).isspace() and not m.group(0).startswith(("//", "/*"))]


def files(base):
    return {os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs if f.endswith(".rs")}


def changed():
    """the changed files, and the literals that are new in them"""
    out, new = [], []
    for f in sorted(files(REF) | files(SRC)):
        a, b = tokens(os.path.join(REF, f)), tokens(os.path.join(SRC, f))
        if a != b:
            out.append(f)
            old = set(a)
            new += [t for t in b if t not in old]
    return out, new


def ints(t):
    m = re.match(r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?$", t)
    return [int(m.group(1).replace("_", ""), 0) if m.group(1)[1:2] in "xbo" or m.group(1) == "0" else int(m.group(1).replace("_", ""))] if m else []


DEFAULT = list(range(1, 13)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
KEY = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split())


def dictionary(new):
    words, sizes = [], []
    for t in new:
        if t[0] == '"' or t[:2] in ('b"', 'r"', "r#"):
            s = t.strip("br#").strip('"')
            words += re.findall(r"\w+", s.replace("\\n", " "))
        elif t[0] == "'" or t[:2] == "b'":
            s = t.lstrip("b").strip("'")
            words += re.findall(r"\w", s) if len(s) == 1 else []
        else:
            for n in ints(t):
                sizes += [n - 1, n, n + 1]
                if 32 < n < 127 and chr(n).isalnum():
                    words.append(chr(n))
    words = sorted({w for w in words if 0 < len(w) < 40})
    more = [v for w in words[:20] for v in (w + "x", "x" + w, w + "_", w + "2", w.lower(), w.upper(), w.capitalize())]
    return words + sorted(set(more) - set(words)), sorted({n for n in sizes if 0 < n <= 600})


def pieces(new):
    """the new strings and characters as they are"""
    out = []
    for t in new:
        m = re.match(r"""b?(["'])(.*)\1$""", t, re.S)
        if m and len(m.group(2)) < 60:
            v = m.group(2)
            for a, b in (("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ('\\"', '"'), ("\\'", "'"), ("\\\\", "\\"), ("{{", "{"), ("}}", "}")):
                v = v.replace(a, b)
            if v:
                out.append(v)
    return sorted(set(out))[:40]


def lit(w):
    return w.isascii() and re.match(r"\w+$", w)


def par(w):
    return w.isascii() and re.match(r"[a-z]\w*$", w) and w not in KEY


def sized(rnd, words, sizes):
    """a configuration with one thing in it of a chosen size"""
    a = corpus.Auto()
    n = rnd.choice(sizes) if sizes and rnd.random() < .6 else rnd.choice(DEFAULT)
    lits = corpus.LITS + words
    leaf = lambda *ms, **k: R([a(m, **k) for m in (ms or ("GET",))])
    word = lambda k: "".join(rnd.choice("abcdexyz_019") for _ in range(k))
    w = rnd.randrange(13)
    if w == 0:
        r = R([], [("b" + word(n - 1) if n > 1 else "b", leaf()), (rnd.choice(["a", "c"]), leaf())])
    elif w == 1:
        k = min(n, 130)
        pre = rnd.choice(["", "p", "pre_"])
        r = R([a()] if rnd.random() < .5 else [], [(pre + "%s%d" % (rnd.choice("abc"), j), leaf(rnd.choice(METHODS))) for j in range(k)])
        if rnd.random() < .4:
            r["sub"].append({"seg": ["id", "u32"], "routes": leaf()})
        rnd.shuffle(r["sub"])
    elif w == 2:
        r = leaf()
        for j in range(min(n, 40)):
            r = R([a()] if rnd.random() < .3 else [], [(rnd.choice(lits), r)])
    elif w == 3:
        r = leaf()
        for j in range(min(n, 16)):
            r = R([a()] if rnd.random() < .3 else [], [(["p%d" % j, rnd.choice(corpus.TYPES)], r)])
            if rnd.random() < .4:
                r = R([a()] if rnd.random() < .3 else [], [(rnd.choice(lits), r)])
    elif w == 4:
        r = leaf("GET", "POST", mods=["M%d" % j for j in range(min(n, 16))])
    elif w == 5:
        k = min(n, 40)
        r = R([], [("s%d" % j, R([a(mods=["Mod%d" % j])])) for j in range(k)])
    elif w == 6:
        r = R([a(q=[["q%d" % j, rnd.choice(corpus.TYPES)] for j in range(min(n, 40))]), a("POST")], [("x", leaf())])
    elif w == 7:
        r = R([a()], [("x", leaf()), (["id", "u32"], leaf())], q=[["q%d" % j, rnd.choice(corpus.TYPES)] for j in range(min(n, 40))])
    elif w == 8:
        x = ("N" + word(n - 1)) if n > 1 else "N"
        r = R([res(x, "GET", rnd.choice([[], [("M" + word(min(n, 60)))]]))], [("x", leaf())])
    elif w == 9:
        r = R([], [([("p" + word(n - 1).replace("__", "_q")) if n > 1 else "p", "u32"], R([a()], [("x", leaf())]))])
    elif w == 10:
        # a common prefix of that length
        pre = "c" + word(min(n, 80) - 1)
        r = R([a()] if rnd.random() < .5 else [], [(pre + s, leaf()) for s in rnd.sample(["", "a", "b", "ab", "xy", "z_z"], rnd.choice([2, 3, 4]))])
        if rnd.random() < .3:
            r["sub"].append({"seg": ["id", "u32"], "routes": leaf()})
    elif w == 11:
        # as many continuations at one point
        pre = rnd.choice(["", "", "p", "pre"])
        cs = rnd.sample("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", min(n, 63))
        r = R([a()] if rnd.random() < .5 else [], [(pre + c + x, leaf(rnd.choice(METHODS))) for c in cs for x in rnd.choice([[""], ["x"], ["yz"], [""], ["", "x"], ["x", "y"], ["yz", "y", "yw"]])])
        if rnd.random() < .4:
            r["sub"].append({"seg": ["id", "u32"], "routes": leaf()})
    else:
        # siblings that share one first letter, in groups
        k = min(n, 60)
        r = R([], [("%s%s%d" % (rnd.choice("ab"), rnd.choice("ab"), j), leaf()) for j in range(k)])
    for _ in range(rnd.choice([0, 0, 0, 1, 2, 3])):
        s = rnd.choice([rnd.choice(lits), ["h%d" % rnd.randrange(99), rnd.choice(corpus.TYPES)]])
        r = R([a()] if rnd.random() < .4 else [], [(s, r)])
        if rnd.random() < .3:
            r["sub"].append({"seg": "zz%d" % rnd.randrange(9), "routes": leaf()})
    return cfg(r, corpus.H)


def sizes_of(rnd, n):
    out = []
    while len(out) < n:
        c = sized(rnd, [x for x in corpus.WORDS if lit(x)], corpus.SIZES)
        if corpus.valid(c):
            out.append(c)
    return out


def worker(a):
    seed, n, words, sizes = a
    corpus.enrich(words)
    rnd = random.Random(seed)
    out = []
    while len(out) < n:
        w = rnd.random()
        if w < .35:
            c = sized(rnd, [x for x in words if lit(x)], sizes)
        else:
            c = corpus.rand_config(rnd, depth=rnd.choice([1, 2, 2, 3, 3, 4, 5]), width=rnd.choice([2, 3, 4, 5, 6]))
        if corpus.valid(c):
            out.append(c)
    return out


def build_reference():
    env = dict(os.environ, CARGO_TARGET_DIR=run.TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(run.VERIF, "guide"), env=env, capture_output=True, text=True)
    return p.returncode == 0 and os.path.exists(WFREF)


def parallel(exe, reqs, parts=8):
    n = max(1, (len(reqs) + parts - 1) // parts)
    with cf.ThreadPoolExecutor(parts) as ex:
        return [x for o in ex.map(lambda r: run.lines([exe], r), [reqs[i:i + n] for i in range(0, len(reqs), n)]) for x in o]


def template(a, b):
    """the first line on which two texts differ, without its names"""
    x, y = a.split("\n"), b.split("\n")
    for i in range(max(len(x), len(y))):
        p, q = x[i] if i < len(x) else "", y[i] if i < len(y) else ""
        if p != q:
            return tuple(re.sub(r"\w+", "w", z) for z in (p, q))
    return ("", "")


class Guide:
    def __init__(self, seed, n=24000, keep=12):
        self.on, self.found, self.words, self.sizes, self.notes = False, [], [], [], ""
        fs, new = changed()
        if not fs:
            return
        self.on = True
        self.files = fs
        self.words, self.sizes = dictionary(new)
        corpus.enrich(self.words)
        corpus.SIZES[:] = self.sizes
        corpus.RAW[:] = pieces(new)
        try:
            if not build_reference():
                self.notes = "the reference does not build"
                return
            with cf.ProcessPoolExecutor(8) as ex:
                cs = [c for o in ex.map(worker, [("%s-%d" % (seed, k), n // 8, self.words, self.sizes) for k in range(8)], timeout=120) for c in o]
            reqs = [{"op": "gen_sum", "cfg": c} for c in cs]
            got, ref = parallel(run.WFH, reqs), parallel(WFREF, reqs)
            diff = sorted([c for c, g, r in zip(cs, got, ref) if g != r], key=lambda c: len(str(c)))
            self.notes = "%d of %d configurations generate another text than the accepted source" % (len(diff), len(cs))
            # small ones, of as many kinds as there are
            pick = diff[:150] + random.Random(seed).sample(diff[150:], min(150, len(diff[150:])))
            reqs = [{"op": "gen", "cfg": c} for c in pick]
            groups = {}
            for c, g, r in zip(pick, parallel(run.WFH, reqs), parallel(WFREF, reqs)):
                k = template(g["ok"], r["ok"]) if "ok" in g and "ok" in r else (str(g)[:40], str(r)[:40])
                groups.setdefault(k, []).append(c)
            k = 0
            while len(self.found) < keep and any(len(g) > k for g in groups.values()):
                for g in sorted(groups.values(), key=len):
                    if len(g) > k and len(self.found) < keep:
                        self.found.append(g[k])
                k += 1
        except (OSError, RuntimeError, cf.TimeoutError, cf.BrokenExecutor) as e:
            self.notes = "no guidance: %s" % e
