"""Route configurations as plain JSON data, and an independent reading of what
they mean.  Nothing here is derived from the generator's source."""
import random

METHODS = ["GET", "POST", "PUT", "DELETE"]


def R(res=None, sub=None, q=None):
    return {"q": q or [], "res": res or [], "sub": [{"seg": s, "routes": r} for s, r in (sub or [])]}


def res(name, m="GET", mods=(), redir=False, q=None):
    return {"m": m, "mods": list(mods), "name": name, "redir": redir, "q": q or []}


def cfg(routes, headers=()):
    return {"headers": list(headers), "routes": routes}


def caps(s):
    """first letter raised; each underscore removed and the letter after it raised"""
    up = lambda c: c.upper() if c.isascii() else c
    cs = list(s)
    if cs:
        cs[0] = up(cs[0])
    out, k = [], 0
    while k < len(cs):
        if cs[k] == "_":
            if k + 1 < len(cs):
                out.append(up(cs[k + 1]))
            k += 2
        else:
            out.append(cs[k])
            k += 1
    return "".join(out)


def snake(s):
    out = []
    for k, c in enumerate(s):
        if c.isascii() and c.isupper():
            if k:
                out.append("_")
            out.append(c.lower())
        else:
            out.append(c)
    return "".join(out)


class Node:
    """A place in the route tree."""

    def __init__(self, segs, q):
        self.segs = segs          # path from the root: str | (name, type)
        self.q = q                # inherited + own query parameters
        self.res = []
        self.lits = {}            # literal -> Node
        self.dyn = None           # (name, type, Node)
        self.id = None

    def dynamics(self):
        return [s for s in self.segs if not isinstance(s, str)]

    def all(self):
        yield self
        for k in sorted(self.lits):
            yield from self.lits[k].all()
        if self.dyn:
            yield from self.dyn[2].all()


class Conflict(Exception):
    pass


def tree(config):
    """The route tree of a configuration without conflicts (canonical: independent of declaration order)."""
    def go(routes, segs, q):
        n = Node(segs, q + [tuple(p) for p in routes["q"]])
        n.res = sorted(routes["res"], key=lambda r: (METHODS.index(r["m"]), r["name"], r["mods"]))
        for s in routes["sub"]:
            seg = s["seg"]
            if isinstance(seg, str):
                if seg in n.lits:
                    raise Conflict(("path", segs + [seg]))
                n.lits[seg] = go(s["routes"], segs + [seg], n.q)
            else:
                if n.dyn:
                    raise Conflict(("parameter", segs + [tuple(seg)]))
                n.dyn = (seg[0], seg[1], go(s["routes"], segs + [tuple(seg)], n.q))
        return n

    root = go(config["routes"], [], [])
    for k, n in enumerate(root.all()):
        n.id = k
    handlers = set()
    for n in root.all():
        for r in n.res:
            if r["redir"]:
                continue
            h = (tuple(r["mods"]), r["name"])
            if h in handlers:
                raise Conflict(("handler", h))
            handlers.add(h)
    return root


def lcp_literal(node):
    """How the generator groups the literals beside a parameter (only needed to
    pin the two known deviations): None when there is nothing to deviate, else
    (prefix, prefix_is_itself_a_literal)."""
    if not node.dyn or not node.lits:
        return None
    lits = sorted(node.lits)
    p = ""
    while True:
        if p in node.lits:
            return (p, True)
        nxt = {l[len(p)] for l in lits if l.startswith(p)}
        if len(nxt) != 1:
            break
        p += nxt.pop()
    return (p, False) if p else None


def has_known(root):
    return any(lcp_literal(n) for n in root.all())


def action_fields(node, r):
    """the fields of the action type of resource r at node: [(name, type, optional)]"""
    return ([(n, t, False) for n, t in node.dynamics()] + [(n, t, True) for n, t in node.q]
            + [(p[0], p[1], True) for p in r["q"]])


def module_tree(root):
    """nested {"structs": {caps: fields}, "mods": {snake: ...}, "variants": sorted}"""
    def empty():
        return {"actions": {}, "mods": {}}
    top = empty()
    for n in root.all():
        for r in n.res:
            if r["redir"]:
                continue
            m = top
            for x in r["mods"]:
                m = m["mods"].setdefault(x, empty())
            m["actions"][r["name"]] = (n, r)
    return top


def expected_shape(m):
    return {
        "structs": {caps(a): [[f, "Option<%s>" % t if o else t, True] for f, t, o in action_fields(n, r)]
                    for a, (n, r) in m["actions"].items()},
        "mods": {snake(k): expected_shape(v) for k, v in m["mods"].items()},
        "variants": [[caps(a), caps(a)] for a in sorted(m["actions"])]
        + [[caps(k), snake(k) + "::Route"] for k in sorted(m["mods"])],
        "order": [caps(a) for a in sorted(m["actions"])] + [snake(k) for k in sorted(m["mods"])],
    }
