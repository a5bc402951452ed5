"""Checks that compare what a function computes, as an algebraic normal form, with a specified formula."""
from engine import *
from algebra import *
from facts import AnalysisError
from harness import where

DENY = ("is_covariance_valid", "double_equal", "outputs::log", "outputs::log_warning", "outputs::log_error")


class FPolicy(Policy):
    deny = DENY
    max_depth = 12


class Fx:
    """one analysed function"""

    def __init__(self, ctx, fn, policy=None, bind=None, symmetric=(), hooks=None, distinct=False):
        self.ctx, self.fn, self.prog = ctx, fn, ctx.prog
        self.E = Engine(ctx.prog, policy or FPolicy(), hooks) if hooks else Engine(ctx.prog, policy or FPolicy())
        S = State()
        if distinct:      # the arguments are other objects than this
            for p in fn.params:
                S.facts[binop("==", mk("addr", (("o", "this"),)), mk("addr", (("o", "param", p["n"] or str(p["d"])),)))] = False
        self.exits, self.throws = self.E.run(fn, S)
        ctx.count("functions_analysed")
        ctx.count("callees_looked_through", len(self.E.inlined))
        self.sym = set(symmetric)
        self.b = dict(bind or {})

    def alg(self):
        A = Alg(self.prog, self.fn, self.E, symmetric=self.sym)
        A.bind.update(self.b)
        return A

    def par(self, i, *path):
        p = self.fn.params[i]
        return mk("init", (("o", "param", p["n"] or str(p["d"])),) + path)

    def this(self, *path):
        return mk("init", (("o", "this"),) + path)

    def out(self, x, i):
        p = self.fn.params[i]
        return x.S.read((("o", "param", p["n"] or str(p["d"])),))

    @property
    def sid(self):
        return strip(self.fn.qn).replace("rgbd_slam::", "")


def pick(ctx, suffix, pred=None, what=None):
    fs = [f for f in ctx.prog.find(suffix) if not f.raw.get("implicit") and not f.raw.get("defaulted") and
          (pred is None or pred(f))]
    ctx.need(fs, what or suffix)
    return fs


def pick1(ctx, suffix, pred=None, what=None):
    return pick(ctx, suffix, pred, what)[0]


def ptypes(f):
    return [p["t"] for p in f.params]


def vecn(name, n):
    return M(n, 1, [sym("%s%d" % (name, i)) for i in range(n)])


def matn(name, r, c, symmetric=False):
    return M(r, c, [sym("%s%d%d" % ((name, min(i, j), max(i, j)) if symmetric else (name, i, j)))
                    for i in range(r) for j in range(c)])


def jac(ys, xs):
    """matrix of derivatives of the normal forms ys by the atoms of the normal forms xs (plain symbols)"""
    out = []
    for y in ys:
        for x in xs:
            (m, c), = x.n.items()
            out.append(diff(y, _byid[m[0][0]]))
    return M(len(ys), len(xs), out)


def congruence(J, S, eps=None):
    r = J.mul(S).mul(J.T())
    if eps is not None:
        for i in range(r.r):
            r = r.put(i, i, M(1, 1, [r.at(i, i) + eps]))
    return r


from algebra import _byid  # noqa: E402


LEAVES = 64


def compare(ctx, fx, x, key, what, got, want, alt=None, ok=None):
    """obligation: got (a term, evaluated by thunk) equals want. Where branches deliver different values, each branch is
    compared by itself. A value that contains computations the normal forms do not understand is left undecided."""
    ctx.item("%s: %s" % (fx.sid, what))
    st = {"leaves": 0, "ok": True}

    def fail(g, w):
        d = first_diff(g, w) if isinstance(g, M) and isinstance(w, M) else ""
        ctx.violation("%s:%s" % (fx.sid, key), where(fx.fn, x.node if x is not None else None),
                      "%s: %s is not the specified value" % (what, d or "the result"))
        st["ok"] = False

    def undecided(why):
        ctx.count("undecided")
        ctx.notes.append("undecided: %s: %s (%s)" % (fx.sid, what, why))
        if st["ok"]:
            st["ok"] = None

    def go(ch):
        st["leaves"] += 1
        if st["leaves"] > LEAVES:
            return undecided("too many branches")
        choose(ch)
        if x is not None and ch and not feasible(fx, x.S, ch):
            return
        if x is not None and x.val is not None and ch and fx.fn.ret == "bool" and truth_under(fx, x, x.val, ch) is False:
            return      # the value is that of a success
        try:
            g = got() if callable(got) else got
            w = want() if callable(want) else want
            pend = list(PENDING)
            if ok is not None:
                if ok(g, w):
                    return
            elif mequal(g, w) or alt is not None and any(mequal(g, y() if callable(y) else y) for y in alt):
                return
        except ZeroDivision as e:
            pend = list(PENDING)
            if not pend:
                ctx.violation("%s:%s" % (fx.sid, key), where(fx.fn, x.node if x is not None else None),
                              "%s: %s, for every argument" % (what, e))
                st["ok"] = False
                return
        except Shape as e:
            pend = list(PENDING)
            if not pend:
                return undecided(e)
        if pend:
            k, n = pend[0]
            for i in range(n):
                c = dict(ch)
                c[k] = i
                go(c)
            return
        u = unknown_atoms(g) - unknown_atoms(w)
        if u:
            return undecided("not understood: " + ", ".join(sorted(repr(a)[:80] for a in u)[:3]))
        fail(g, w)

    try:
        go({})
    finally:
        choose({})
    return st["ok"]


def getter(ctx, suffix, pred=None):
    """the path of the field a getter returns"""
    for fn in pick(ctx, suffix, pred or (lambda f: not f.params)):
        g = Fx(ctx, fn)
        for x in g.exits:
            v = x.val
            if v is not None and v.op == "init" and v.a[0][0] == ("o", "this"):
                return tuple(v.a[0][1:])
    ctx.need(False, "field returned by " + suffix)


def self_read(x, path):
    return x.S.read((("o", "this"),) + tuple(path))


def normalized(v):
    n = sqrt(norm2(v))
    return v.map(lambda e: e / n)


def on(ctx, suffix, pred=None, policy=None):
    return [Fx(ctx, fn, policy) for fn in pick(ctx, suffix, pred)]


def okfail(fx):
    return [x for x in fx.exits if cval(x.val) is not False], [x for x in fx.exits if cval(x.val) is False]


def truth_under(fx, x, t, ch):
    """True, False or None: the boolean term t when the joins in ch come from the chosen branches"""
    E = fx.E
    if t is None:
        return None
    while t.op == "phi" and t in E.cond and t.a[0] in ch and ch[t.a[0]] < len(E.cond[t]):
        t = E.cond[t][ch[t.a[0]]][0]
    c = cval(t)
    if c is not None:
        return bool(c)
    if t.op == "not":
        r = truth_under(fx, x, t.a[0], ch)
        return None if r is None else not r
    if t.op in ("and", "or"):
        rs = [truth_under(fx, x, y, ch) for y in t.a]
        if t.op == "and":
            return False if False in rs else True if all(rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    f = x.S.facts.get(t)
    if f is not None:
        return f
    for k, i in ch.items():
        pc = join_pcs(E).get(k)
        if pc and i < len(pc) and pc[i]:
            for pol in (True, False):
                if all((t, pol) in c for c in pc[i]):
                    return pol
    return None


def feasible(fx, S, ch):
    """whether the joins in ch can come from the chosen branches on a path to S"""
    E = fx.E

    def lit(t):
        pol = True
        while True:
            if t.op == "not":
                t, pol = t.a[0], not pol
            elif t.op == "phi" and t in E.cond and t.a[0] in ch and ch[t.a[0]] < len(E.cond[t]) and \
                    E.cond[t][ch[t.a[0]]][0] is not t:
                t = E.cond[t][ch[t.a[0]]][0]
            else:
                return t, pol

    for t, pol in S.facts.items():
        if t.op == "phi":
            u, p = lit(t)
            c = cval(u)
            f = S.facts.get(u) if c is None else bool(c)
            if u is not t and f is not None and f != (pol == p):
                return False
    jp = join_pcs(E)
    sets = []
    for k, i in ch.items():
        pc = jp.get(k)
        if not pc or i >= len(pc) or pc[i] is None:
            continue
        good = []
        for cube in pc[i]:
            c = {}
            for t, pol in cube:
                u, p = lit(t)
                v = cval(u)
                if S.facts.get(t, pol) is not pol or v is not None and bool(v) != (pol == p) or \
                        c.setdefault(u, pol == p) is not (pol == p):
                    break
            else:
                good.append(c)
        if not good:
            return False
        sets.append(good)
    # some choice of one history per join agrees with itself
    live = [{}]
    for good in sorted(sets, key=len):
        live = [{**a, **b} for a in live for b in good if all(a.get(t, v) is v for t, v in b.items())]
        if not live:
            return False
        if len(live) > 256:
            break
    return True


def join_pcs(E):
    m = getattr(E, "_jp", None)
    if m is None or m[0] != len(E.cond):
        d = {}
        for t, cs in E.cond.items():
            d.setdefault(t.a[0], [c[2] for c in cs])
        m = E._jp = (len(E.cond), d)
    return m[1]


def untouched(ctx, fx, i):
    """the i-th parameter is not written on a path answering false"""
    ctx.item("%s: output untouched when the answer is false" % fx.sid)
    par = fx.par(i)

    def resolve(o, ch):
        while o.op == "phi" and o in fx.E.cond and o.a[0] in ch and ch[o.a[0]] < len(fx.E.cond[o]):
            o = fx.E.cond[o][ch[o.a[0]]][0]
        return o

    def go(x, ch, d):
        o = resolve(fx.out(x, i), ch)
        if o is par or d > 8:
            return
        v = truth_under(fx, x, x.val, ch)
        if v is True:
            return
        for t in (o, x.val):
            t = resolve(t, ch)
            if t.op == "phi" and t in fx.E.cond and t.a[0] not in ch and splittable(fx.E, t):
                for k in range(len(fx.E.cond[t])):
                    go(x, dict(ch, **{}) | {t.a[0]: k}, d + 1)
                return
        if o.op == "agg" and o.a[0] is par and all(resolve(w, ch) is proj_path(par, k) for k, w in o.a[1]):
            return
        if v is None:
            try:
                A = fx.alg()
                u = A.ev(o)
                if unknown_atoms(u):
                    raise Shape("not understood")
            except Shape:
                ctx.count("undecided")
                ctx.notes.append("undecided: %s: output argument" % fx.sid)
                return
        ctx.violation(fx.sid + ":failed-output", where(fx.fn, x.node),
                      "the output argument is written although the answer %s false" % ("is" if v is False else "may be"))

    for x in fx.exits:
        if cval(x.val) is not True:
            go(x, {}, 0)


def splittable(E, t):
    cs = E.cond.get(t)
    return cs is not None and not any(t.a[0] in v._ls for v, _, _ in cs) and all(pc is not None for _, _, pc in cs)


def rigid(name):
    m = matn(name, 4, 4)
    for i in range(4):
        m = m.put(3, i, M(1, 1, [const(1 if i == 3 else 0)]))
    return m


def apply(m, p):
    return M(3, 1, [sum((m.at(i, j) * p.e[j] for j in range(3)), m.at(i, 3)) for i in range(3)])


def dot(a, b):
    r = const(0)
    for x, y in zip(a.e, b.e):
        r = r + x * y
    return r


def intrinsics(g):
    """binds symbolic intrinsics"""
    f, c = vecn("f", 2), vecn("c", 2)
    for n, v in (("_camera1Focal", f), ("_camera1Center", c)):
        g.b[mk("init", (("g", "rgbd_slam::Parameters::" + n),))] = v
    return f.e + c.e
