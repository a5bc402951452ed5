"""Loops: what one iteration does to the values carried around the loop, and the joint cases of joined values."""
from engine import *
from algebra import *
from formula import *
from formula import splittable
import formula
from engine import strip_old
from preds import *


class LoopHooks(Hooks):
    """collects the state at the end of every loop body"""

    def __init__(self):
        self.ends = {}
        self.around = {}        # loop -> loops around it, itself included

    def loopend(self, E, S, F, node):
        key = ("loop", F.uid, id(node))
        key = next((k for k in E.openl if len(k) > 3 and k[:3] == key), key)       # body of a lambda
        self.around[key] = frozenset(E.openl)
        self.ends[key] = (S.copy(), F, node)


def loops(ctx, fn, policy=None, distinct=False):
    h = LoopHooks()
    fx = Fx(ctx, fn, policy, hooks=h, distinct=distinct)
    fx.ends = h.ends
    return fx


def carried(fx, key):
    """the values carried around a loop: location -> (head phi, value before the loop, value after one iteration)"""
    out = {}
    back = {mk("old", strip_old(t)): t for t in fx.E.cond if t.a[0] == key}
    for t, cs in fx.E.cond.items():
        if t.a[0] == key and len(cs) == 2:
            out[t.a[1]] = (t, cs[0][0], subst(cs[1][0], back))
    return out


def closure(E, terms):
    """the subterms of the terms, looking through joins"""
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        if t is None or t in seen:
            continue
        for u in subterms(t):
            if u not in seen:
                seen.add(u)
                if u.op == "phi":
                    st.extend(v for v, _, _ in E.cond.get(u, ()) if v not in seen)
    return seen


def resolve(E, t, ch):
    while t.op == "phi" and t in E.cond and t.a[0] in ch and ch[t.a[0]] < len(E.cond[t]) and E.cond[t][ch[t.a[0]]][0] is not t:
        t = E.cond[t][ch[t.a[0]]][0]
    return t


def phis(E, t, ch, seen=None):
    """joins the value t depends on that are not decided by ch"""
    seen = set() if seen is None else seen
    t = resolve(E, t, ch) if isinstance(t, T) else t
    if isinstance(t, tuple):
        for y in t:
            r = phis(E, y, ch, seen)
            if r is not None:
                return r
        return None
    if not isinstance(t, T) or t in seen:
        return None
    seen.add(t)
    if t in getattr(E, "kept", ()):     # a value that has a name
        return None
    if t.op == "phi" and t.a[0][0] != "loop" and splittable(E, t):
        return t
    for y in t.a:
        if isinstance(y, (T, tuple)):
            r = phis(E, y, ch, seen)
            if r is not None:
                return r
    return None


def deep(E, t, ch):
    """t with the joins in ch replaced by the chosen incoming values"""
    m = {}
    for p in subterms(t):
        if p.op == "phi" and p in E.cond and p.a[0] in ch:
            r = resolve(E, p, ch)
            if r is not p:
                m[p] = deep(E, r, ch)
    return subst(t, m) if m else t


def cases(fx, S, terms, limit=64):
    """joint cases of the terms at state S: list of (choice, [resolved terms], conditions of the chosen branches)"""
    E = fx.E
    out = []
    steps = [0]

    def rel(k, i):
        return relative(join_pcs(E)[k])[i]

    def go(ch, pcs):
        steps[0] += 1
        if len(out) > limit or steps[0] > 16 * limit:
            raise Shape("too many cases")
        if ch and not formula.feasible(fx, S, ch):
            return
        p = phis(E, tuple(terms), ch)
        if p is None:
            out.append((dict(ch), [deep(E, t, ch) for t in terms], list(pcs)))
            return
        for i in range(len(E.cond[p])):
            go(dict(ch) | {p.a[0]: i}, pcs + [rel(p.a[0], i)])

    go({}, [])
    return out


def case_formula(P, S, pcs):
    """condition of a case: those of its branches, and the understood ones under which the state is reached"""
    return And(P.known_reach(S), *[P.pc(pc) for pc in pcs])


def upper(fx, A, key, h):
    """the bound L such that the loop body is executed only for h < L, as a normal form (h counts upwards); None if unknown"""
    S = fx.ends[key][0]
    hs = A.ev(h)
    (m, _), = hs.n.items()
    for t, pol in S.facts.items():
        if t.op not in ("<", "<=", "==") or h not in subterms(t):
            continue
        try:
            d = A.sc(t.a[0]) - A.sc(t.a[1])
        except Shape:
            continue
        if d.d != {(): 1} or unknown_atoms(d) or m not in d.n or sum(1 for k in d.n if any(x == m[0][0] for x, _ in k)) != 1:
            continue
        c = d.n[m]
        r = (d - hs.scale(c)).scale(-1 / c)       # h (op) r
        op = {("<", True): "<", ("<=", True): "<=", ("<", False): ">=", ("<=", False): ">", ("==", False): "!="}.get((t.op, pol))
        if c < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if op in ("<", "!="):
            return r
        if op == "<=":
            return r + const(1)
    return None


EMPTY_MODS = ("reserve", "clear", "shrink_to_fit")


def empty(t):
    """an empty container"""
    while t.op == "mod" and t.a[0] in EMPTY_MODS:
        t = t.a[1]
    return t.op == "dflt" or t.op == "new" and len(t.a) == 1 or t.op == "zero"


APPEND = ("push_back", "emplace_back")


def appended(fx, t):
    """the container t is built by one loop from an empty one: (key, end state, node, [(appended values, conditions)],
    [conditions under which nothing is appended]); None if it is not built like that"""
    def bare(t):
        # without what is written in the last element afterwards
        while True:
            if t.op == "upd" and t.a[1] and t.a[1][0] in (("i", "back"), ("i", "at", "back")):
                t = t.a[0]
            elif t.op == "agg" and t.a[1] and all(p and p[0] == ("i", "back") for p, _ in t.a[1]):
                t = t.a[0]
            else:
                return t
    t = bare(t)
    key = t.a[0] if t.op == "phi" else None
    if key not in fx.ends:
        return None
    car = carried(fx, key).get(t.a[1])
    if car is None or not empty(car[1]):
        return None
    S, F, node = fx.ends[key]
    app, skip = [], []
    for ch, (e,), pcs in cases(fx, S, [S.read(t.a[1])]):
        e = bare(e)
        if e is t:
            skip.append(pcs)
        elif e.op == "mod" and e.a[0] in APPEND and bare(e.a[1]) is t:
            app.append((list(e.a[2:]), pcs))
        else:
            return None
    return key, S, node, app, skip


def elements(fx, key, terms):
    """the container elements that the terms of one iteration read: {(container, direction)} -> element access path (a
    function of the component path to a term). Only elements visited in order, one per iteration, from first to last."""
    out = {}
    idx = {}
    for loc, (h, first, nxt) in carried(fx, key).items():
        if cval(first) == 0:
            idx[h] = True

    def item(x):
        if isinstance(x, tuple) and len(x) >= 3 and x[0] == "i" and isinstance(x[2], T):
            if x[1] in ("elem", "relem") and x[2].op == "iter" and x[2].a[0] == key:
                return x[1]
            if x[1] in ("at", "[]") and x[2] in idx:
                return ("at", x[2])
        return None

    for t in terms:
        for u in subterms(t):
            if u.op == "init":
                for i, x in enumerate(u.a[0]):
                    d = item(x)
                    if d:
                        pre = u.a[0][:i]
                        out.setdefault((mk("init", pre), d), u.a[0][:i + 1])
            elif u.op == "fld":
                d = item(u.a[1])
                if d:
                    out.setdefault((u.a[0], d), u)
    return out


def element(acc, *path):
    return mk("init", acc + path) if isinstance(acc, tuple) else proj_path(acc, path) if path else acc
