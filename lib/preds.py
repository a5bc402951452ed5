"""Predicates: the condition under which a function answers true, throws or reaches an exit, as a boolean formula over
comparisons of normal forms, and its comparison with a specified condition by enumeration of the sign regions of the
compared quantities."""
import itertools
import math
from fractions import Fraction
from engine import *
from algebra import *
from algebra import _byid
from harness import where
from formula import splittable


# formulas: True, False, ("and", [..]), ("or", [..]), ("not", f), ("cmp", dir, threshold, op), ("p", opaque key)
def And(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    return True if not out else out[0] if len(out) == 1 else ("and", tuple(out))


def Or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is not False:
            out.append(f)
    return False if not out else out[0] if len(out) == 1 else ("or", tuple(out))


def Not(f):
    if isinstance(f, bool):
        return not f
    if f[0] == "not":
        return f[1]
    return ("not", f)


DIRS = {}


def cmp0(r, op):
    """formula for r op 0 where r is a normal form (an R); op one of > >= == < <= !="""
    if op == "!=":
        return Not(cmp0(r, "=="))
    for a in sorted(r.atoms(), key=lambda a: a.id):
        if a.kind == "abs" and isinstance(a.data, tuple) and len(a.data) == 1 and isinstance(a.data[0], dict):
            x = R(a.data[0])
            return Or(And(cmp0(x, ">="), cmp0(substitute(r, {a: x}), op)),
                      And(cmp0(x, "<"), cmp0(substitute(r, {a: x.scale(-1)}), op)))
        if a.kind in ("max", "min") and isinstance(a.data, tuple) and len(a.data) == 2 and all(isinstance(d, R) for d in a.data):
            x, y = a.data
            p, q = (x, y) if a.kind == "max" else (y, x)
            return Or(And(cmp0(x - y, ">="), cmp0(substitute(r, {a: p}), op)),
                      And(cmp0(x - y, "<"), cmp0(substitute(r, {a: q}), op)))
    c = r.const()
    if c is not None:
        return {">": c > 0, ">=": c >= 0, "==": c == 0, "<": c < 0, "<=": c <= 0}[op]
    n, d = dict(r.n), dict(r.d)
    # a non constant denominator: sign unknown unless it is an even power; compare n * d instead
    dc = d.get((), None) if set(d) == {()} else None
    if dc is None:
        if op == "==":
            q = R(n)
        else:
            q = R(n) * R(d)
        return cmp0(q, op)
    n = {m: Fraction(x) / Fraction(dc) for m, x in n.items()}
    k = n.pop((), Fraction(0))
    lead = sorted(n.items(), key=lambda mv: repr(mv[0]))[0][1]
    n = {m: x / lead for m, x in n.items()}
    key = tuple(sorted(((m, x) for m, x in n.items()), key=repr))
    DIRS[key] = n
    th = -k / lead      # dir*lead + k op 0  <=>  dir op' th
    if lead < 0:
        op = {">": "<", ">=": "<=", "==": "==", "<": ">", "<=": ">="}[op]
    return ("cmp", key, th, op)


def gt(a, b):
    return cmp0(a - b, ">")


def ge(a, b):
    return cmp0(a - b, ">=")


def lt(a, b):
    return cmp0(a - b, "<")


def le(a, b):
    return cmp0(a - b, "<=")


def eq(a, b):
    return cmp0(a - b, "==")


def opaque(key):
    return ("p", key)


def relative(pcs):
    """the path conditions of the branches of a join, without the conditions common to all of them (under which the join is
    reached at all)"""
    if any(pc is None for pc in pcs) or not pcs:
        return pcs
    cubes = [c for pc in pcs for c in pc]
    if not cubes:
        return pcs
    com = frozenset.intersection(*cubes)
    return [frozenset(c - com for c in pc) for pc in pcs] if com else pcs


class Pred:
    """turns terms and path conditions of one analysed function into formulas"""

    def __init__(self, fx, names=()):
        self.fx = fx
        self.A = fx.alg()
        self.memo = {}
        self.names = dict(names)    # term -> formula, for calls the specification speaks about
        self.hook = None            # term -> formula or None

    def term(self, t, depth=0):
        f = self.memo.get(t)
        if f is None:
            f = self.memo[t] = self._term(t, depth)
        return f

    def _term(self, t, depth):
        if t in self.names:
            return self.names[t]
        if self.hook is not None:
            f = self.hook(t)
            if f is not None:
                return f
        c = cval(t)
        if c is not None:
            return bool(c)
        if t.op == "not":
            return Not(self.term(t.a[0], depth))
        if t.op == "and":
            return And(*[self.term(x, depth) for x in t.a])
        if t.op == "or":
            return Or(*[self.term(x, depth) for x in t.a])
        if t.op in ("==", "!=") and any(isinstance(cval(x), bool) for x in t.a[:2]):
            x, y = t.a[:2] if isinstance(cval(t.a[1]), bool) else (t.a[1], t.a[0])
            f = self.term(x, depth)
            return f if cval(y) == (t.op == "==") else Not(f)
        if t.op in ("<", "<=", "=="):
            try:
                a, b = self.A.ev(t.a[0]), self.A.ev(t.a[1])
                if isinstance(a, M) and (a.r, a.c) == (1, 1):
                    a = a.e[0]
                if isinstance(b, M) and (b.r, b.c) == (1, 1):
                    b = b.e[0]
                if isinstance(a, R) and isinstance(b, R):
                    ph = None
                    if depth < 12:
                        un = {y.key for y in unknown_atoms(a) | unknown_atoms(b) if y.kind == "t"}
                        ph = next((y for y in sorted(un, key=repr) if y.op == "phi" and splittable(self.fx.E, y)), None)
                    if ph is not None:
                        cs = self.fx.E.cond[ph]
                        return Or(*[And(self.pc(pc, depth + 1), self.term(subst(t, {ph: c[0]}), depth + 1))
                                    for c, pc in zip(cs, relative([c[2] for c in cs]))])
                    return cmp0(a - b, t.op)
            except Shape:
                pass
            return ("p", t)
        if t.op == "phi" and t in self.fx.E.cond and depth < 30 and t.a[0][0] != "loop":
            cs = self.fx.E.cond[t]
            if not any(t.a[0] in v._ls for v, _, _ in cs) and all(pc is not None for _, _, pc in cs):
                return Or(*[And(self.pc(pc, depth + 1), self.term(c[0], depth + 1))
                            for c, pc in zip(cs, relative([c[2] for c in cs]))])
        if t.op == "call":
            n = str(t.a[0]).split("::")[-1].split("<")[0]
            if n == "isnan":
                try:
                    v = self.A.ev(t.a[-1])
                    if isinstance(v, R) and v.const() is None:
                        return And(Not(cmp0(v, "<")), Not(cmp0(v, ">=")))
                except Shape:
                    pass
            if n in ("signbit",):
                try:
                    v = self.A.ev(t.a[-1])
                    if isinstance(v, R):
                        return cmp0(v, "<")
                except Shape:
                    pass
        return ("p", t)

    def pc(self, pc, depth=0):
        if pc is None:
            return ("p", "?")
        return Or(*[And(*[self.term(t, depth) if pol else Not(self.term(t, depth))
                          for t, pol in sorted(c, key=lambda l: repr(l[0]))]) for c in pc])

    def reach(self, x):
        return self.pc(x.S.pc)

    def known_reach(self, S):
        """the conditions common to all paths to S that are comparisons of understood quantities"""
        if not S.pc:
            return True
        com = frozenset.intersection(*S.pc)
        fs = [self.term(t) if pol else Not(self.term(t)) for t, pol in sorted(com, key=lambda l: repr(l[0]))]
        return And(*[f for f in fs if not any(strange(l, ()) for l in leaves(f))])

    def true(self):
        """condition under which the function answers true"""
        return Or(*[And(self.reach(x), self.term(x.val)) for x in self.fx.exits])

    def returns(self, pred):
        return Or(*[self.reach(x) for x in self.fx.exits if pred(x)])

    def throws(self):
        return Or(*[self.reach(x) for x in self.fx.throws])

    def normal(self):
        return Or(*[self.reach(x) for x in self.fx.exits])


def leaves(f):
    out, seen, todo = set(), set(), [f]
    while todo:
        f = todo.pop()
        if isinstance(f, bool) or id(f) in seen:      # formulas share their parts
            continue
        seen.add(id(f))
        if f[0] in ("and", "or"):
            todo.extend(f[1])
        elif f[0] == "not":
            todo.append(f[1])
        else:
            out.add(f)
    return out


def value(f, env):
    if isinstance(f, bool):
        return f
    if f[0] == "and":
        return all(value(x, env) for x in f[1])
    if f[0] == "or":
        return any(value(x, env) for x in f[1])
    if f[0] == "not":
        return not value(f[1], env)
    return env[f]


LIMIT = 400000
OPS = {">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b}


def nonneg(key):
    """a direction that is a single non negative atom (a magnitude)"""
    if len(key) != 1:
        return False
    m, x = key[0]
    if x <= 0:
        return False
    return all(e % 2 == 0 or _byid[a].kind in ("abs", "sqrt", "norm") for a, e in m)


def whole(key, integral):
    """the direction has integer values (integral: all have, or the atoms that have)"""
    if isinstance(integral, (set, frozenset)):
        return all(c == int(c) and all(a in integral or _byid[a].kind in ("floor", "ceil") for a, _ in m) for m, c in key)
    return bool(integral)


def assignments(fs, nan=False, integral=False, positive=()):
    """all sign regions of the compared quantities, as dicts leaf -> bool; None when too many"""
    ls = set()
    for f in fs:
        ls |= leaves(f)
    dirs = {}
    for l in ls:
        if l[0] == "cmp":
            dirs.setdefault(l[1], set()).add(l[2])
    ps = sorted([l for l in ls if l[0] == "p"], key=repr)
    opts = []
    total = 1
    for key, ths in sorted(dirs.items(), key=lambda kv: repr(kv[0])):
        th = sorted(ths)
        pts = [th[0] - 1]
        for i, t in enumerate(th):
            pts.append(t)
            nx = t + 1 if i + 1 == len(th) else (t + th[i + 1]) / 2
            if not (whole(key, integral) and i + 1 < len(th) and th[i + 1] - t <= 1):
                pts.append(nx)
        if isinstance(integral, (set, frozenset)) and whole(key, integral):
            pts = sorted({Fraction(q) for t in th for q in (math.floor(t) - 1, math.floor(t), math.ceil(t), math.ceil(t) + 1)})
            seen = set()
            pts = [p for p in pts if not (repr(region(p, th)) in seen or seen.add(repr(region(p, th))))]
        if nonneg(key):
            pts = [p for p in pts if p >= 0] + ([Fraction(0)] if 0 not in pts else [])
        mine = [l for l in ls if l[0] == "cmp" and l[1] == key]
        o = []
        for p in pts:
            d = {l: OPS[l[3]](p, l[2]) for l in mine}
            d[("region", key)] = region(p, th)
            o.append(d)
        if nan:
            d = {l: False for l in mine}
            d[("region", key)] = None
            o.append(d)
        opts.append(o)
        total *= len(o)
    for p in ps:
        opts.append([{p: True}, {p: False}])
        total *= 2
    if total > LIMIT:
        return None
    return itertools.product(*opts)


def region(p, th):
    """the constraints of the region p lies in: list of (op, threshold)"""
    if p in th:
        return [("==", p)]
    return [(">", t) for t in th if t < p][-1:] + [("<", t) for t in th if t > p][:1]


def feasible(env, extra=()):
    """can the linear parts of the compared quantities lie in these regions together? (Fourier-Motzkin elimination over
    the monomials)"""
    cons = []     # ({monomial: coeff}, const, strict): sum + const >= 0 (or > 0)
    mons = set()
    for k, reg in env.items():
        if k[0] != "region" or reg is None:
            continue
        lin = DIRS[k[1]]
        mons.update(lin)
        neg = {m: -c for m, c in lin.items()}
        for op, t in reg:
            if op in ("==", ">"):
                cons.append((lin, -t, op == ">"))
            if op in ("==", "<"):
                cons.append((neg, t, op == "<"))
    for m in mons:
        if all(e % 2 == 0 or _byid[a].kind in ("abs", "sqrt", "norm") for a, e in m):
            cons.append(({m: Fraction(1)}, Fraction(0), False))
    for m in sorted(mons, key=repr):
        up, lo, rest = [], [], []
        for c in cons:
            x = c[0].get(m, 0)
            (up if x < 0 else lo if x > 0 else rest).append(c)
        for u in up:
            for l in lo:
                a, b = l[0][m], -u[0][m]
                d = {}
                for q, w in ((u, a), (l, b)):
                    for k, v in q[0].items():
                        d[k] = d.get(k, 0) + v * w
                d = {k: v for k, v in d.items() if v}
                rest.append((d, u[1] * a + l[1] * b, u[2] or l[2]))
        seen, cons = set(), []
        for c in rest:
            if not c[0]:
                if c[1] < 0 or c[1] == 0 and c[2]:
                    return False
                continue
            h = (frozenset(c[0].items()), c[1], c[2])
            if h not in seen:
                seen.add(h)
                cons.append(c)
        if len(cons) > 3000:
            return True
    return True


def show_leaf(l):
    if l[0] == "p":
        return repr(l[1])[:80]
    return "%s %s %s" % (p_str(DIRS[l[1]]), l[3], l[2])


def decide(ctx, fx, node, key, what, got, want, mode="iff", nan=False, integral=False, free=(), side=True):
    """obligation: got <=> want (iff), got => want (implies) or want => got (covers), for every sign region in which the
    side condition holds. A difference that needs a condition the analysis does not understand is left undecided."""
    ctx.item("%s: %s" % (fx.sid, what))
    asg = assignments([got, want, side], nan, integral)
    if asg is None:
        ctx.count("undecided")
        ctx.notes.append("undecided: %s: %s (too many conditions)" % (fx.sid, what))
        return None
    known = {l for l in leaves(want) | leaves(side)}
    wd = {l[1] for l in known if l[0] == "cmp"}
    bad = None
    n = 0
    fails, fine = {}, {}
    odd = any(l not in known and strange(l, wd) for l in leaves(got))
    for combo in asg:
        env = {}
        for o in combo:
            env.update(o)
        n += 1
        if not value(side, env):
            continue
        g, w = value(got, env), value(want, env)
        if g != w and (mode == "iff" or mode == "implies" and g or mode == "covers" and w) and not feasible(env):
            continue
        if g != w and (mode == "iff" or mode == "implies" and g or mode == "covers" and w):
            # conditions outside the specification's vocabulary
            u = tuple(sorted(((l, v) for l, v in env.items() if l[0] != "region" and l not in known and strange(l, wd)), key=repr))
            fails.setdefault(u, env)
            if not u:
                break
            fine.setdefault(frozenset((l, v) for l, v in env.items() if l in known), []).append((False, env))
        elif odd:
            fine.setdefault(frozenset((l, v) for l, v in env.items() if l in known), []).append((True, env))
    ctx.count("sign_regions_examined", n)
    if not fails:
        return True
    # a failure that occurs whatever the unknown conditions are is a violation
    if () in fails:
        bad = fails[()]
    else:
        us = sorted({l for k in fails for l, _ in k}, key=repr)
        # whatever they are, under the same known conditions
        for es in fine.values():
            if not all(ok for ok, _ in es) and not any(ok and feasible(env) for ok, env in es):
                bad = next(env for ok, env in es if not ok)
                break
        if bad is None and free and all(any(fr(l) for fr in free) for l in us):
            bad = next(iter(fails.values()))
    if bad is None:
        ctx.count("undecided")
        ctx.notes.append("undecided: %s: %s (not understood: %s)" % (fx.sid, what, "; ".join(
            show_leaf(l) for l in us[:3])))
        return None
    ctx.violation("%s:%s" % (fx.sid, key), where(fx.fn, node),
                  "%s: fails when %s" % (what, " and ".join(sorted(("" if v else "not ") + show_leaf(l)
                                                                   for l, v in bad.items() if l[0] != "region")[:8])))
    return False


def strange(l, wd):
    """a condition that is not a comparison of understood quantities"""
    if l[0] == "p":
        return not (isinstance(l[1], str) and l[1] != "?")      # a name given by the specification is understood
    for m, _ in l[1]:
        for a, _ in m:
            at = _byid[a]
            if unknown_atoms(R({((a, 1),): 1})):
                return True
    return False
