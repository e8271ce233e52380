"""The configuration language, written down independently: an ordered-choice
grammar with committed failures.  Used as the oracle for the real parser."""


class Err(Exception):
    pass


class Fail(Exception):
    """a committed failure: no alternative is tried"""


WS = " \t\r\n"
METHODS = ["get", "post", "put", "delete"]


def is_id(c):
    return c.isalnum() or c == "_"


class P:
    def __init__(self, text):
        self.t = text

    def tag(self, i, s):
        if self.t.startswith(s, i):
            return i + len(s)
        raise Err

    def commit(self, f, *a):
        try:
            return f(*a)
        except Err:
            raise Fail

    def sp(self, i):
        while i < len(self.t) and self.t[i] in WS:
            i += 1
        return i

    def ident(self, i):
        j = i
        while j < len(self.t) and is_id(self.t[j]):
            j += 1
        if j == i:
            raise Err
        return j, self.t[i:j]

    def eol(self, i):
        if self.t.startswith("\n", i):
            return i + 1
        if self.t.startswith("\r\n", i):
            return i + 2
        raise Err

    def eols0(self, i):
        while True:
            try:
                i = self.eol(i)
            except Err:
                return i

    def eols(self, i):
        return self.eols0(self.eol(i))

    def indent(self, i, level):
        return self.tag(i, "  " * level)

    def many(self, f, i, *a):
        out = []
        while True:
            try:
                i, x = f(i, *a)
            except Err:
                return i, out
            out.append(x)

    def param(self, i):
        i, n = self.ident(i)
        i = self.sp(i)
        i = self.commit(self.tag, i, ":")
        i = self.sp(i)
        i, t = self.ident(i)
        return i, [n, t]

    def wsparam(self, i):
        i, p = self.param(self.sp(i))
        return self.sp(i), p

    def segment(self, i, level):
        i = self.indent(i, level)
        if self.t.startswith("{", i):
            # not reconsidered: an identifier cannot start with a brace either
            i, p = self.wsparam(i + 1)
            return self.commit(self.tag, i, "}"), p
        return self.ident(i)

    def query(self, i, level):
        i = self.indent(i, level)
        i = self.tag(i, "[")
        i, p = self.wsparam(i)
        return self.commit(self.tag, i, "]"), p

    def method(self, i):
        for m in METHODS:
            if self.t[i:i + len(m)].lower() == m:
                return i + len(m), m.upper()
        raise Err

    def target(self, i):
        redir = False
        j = self.sp(i)
        k = i
        if self.t.startswith("->", j):
            redir, k = True, self.sp(j + 2)
            try:
                k, mods, name = self.handler(k)
                return k, redir, mods, name
            except Err:
                redir, k = False, i
        k, mods, name = self.handler(k)
        return k, redir, mods, name

    def handler(self, i):
        mods = []
        while True:
            try:
                j, m = self.ident(i)
                j = self.sp(self.tag(self.sp(j), "::"))
            except Err:
                break
            mods.append(m)
            i = j
        i, name = self.ident(i)
        return i, mods, name

    def newline(self, i):
        return self.commit(self.eols, i)

    def resource(self, i, level):
        i = self.indent(i, level)
        i, m = self.method(i)
        i = self.tag(i, " ")
        i, redir, mods, name = self.target(i)
        i = self.newline(i)

        def qline(i):
            i, p = self.query(i, level + 1)
            return self.newline(i), p
        i, q = self.many(qline, i)
        return i, {"m": m, "mods": mods, "name": name, "redir": redir, "q": q}

    def many1(self, f, i, *a):
        i, out = self.many(f, i, *a)
        if not out:
            raise Err
        return i, out

    def body(self, i, level):
        try:
            i, res = self.many1(self.resource, i, level)
        except Err:
            i, subs = self.many1(self.nested, i, level)
            return i, [], subs
        try:
            i, subs = self.many1(self.nested, self.eols0(i), level)
        except Err:
            subs = []
        return i, res, subs

    def routes(self, i, level):
        def qline(i):
            i, p = self.query(i, level)
            return self.eols(i), p
        i, q = self.many(qline, i)
        i, res, subs = self.commit(self.body, i, level)
        return i, {"q": q, "res": res, "sub": subs}

    def nested(self, i, level):
        i, seg = self.segment(i, level)
        i = self.eols(i)
        i, r = self.commit(self.routes, i, level + 1)
        return i, {"seg": seg, "routes": r}

    def header(self, i):
        if self.t.startswith("/", i):
            raise Err
        j = i
        while j < len(self.t) and self.t[j] not in "\r\n":
            j += 1
        if self.t.startswith("\r", j) and not self.t.startswith("\r\n", j):
            j = i  # a lone carriage return does not end a line
        return self.eols(j), self.t[i:j]

    def config(self):
        i, headers = self.many(self.header, 0)
        i = self.eols0(i)
        i = self.tag(i, "/")
        i = self.eols(i)
        i, r = self.routes(i, 1)
        if i != len(self.t):
            raise Err
        return {"headers": [h for h in headers if h], "routes": r}


def parse(text):
    """-> configuration or None"""
    try:
        return P(text).config()
    except (Err, Fail):
        return None


def parse_method(text):
    try:
        i, m = P(text).method(0)
        return m, text[i:]
    except Err:
        return None


def parse_routes(text, level):
    p = P(text)
    try:
        i, r = p.routes(0, level)
        return r, text[i:]
    except (Err, Fail):
        return None


def show_routes(r, level):
    ind = "  " * level
    par = lambda p: "%s: %s" % (p[0], p[1])
    out = ["%s[%s]\n" % (ind, par(p)) for p in r["q"]]
    for x in r["res"]:
        out.append("%s%s%s %s%s%s\n" % (ind, x["m"], " ->" if x["redir"] else "", "".join(m + "::" for m in x["mods"]), x["name"],
                                         "".join("\n%s  [%s]" % (ind, par(p)) for p in x["q"])))
    for s in r["sub"]:
        seg = s["seg"]
        out.append("%s%s\n%s" % (ind, seg if isinstance(seg, str) else "{%s}" % par(seg), show_routes(s["routes"], level + 1)))
    return "".join(out)


def show(c):
    h = "".join(x + "\n" for x in c["headers"])
    return h + ("\n" if h else "") + "/\n" + show_routes(c["routes"], 1)
