RULE = """
Must-analysis of every instantiation of the covariance validity test: on each path that can answer true the facts
'all entries finite', 'symmetric (at Eigen's default precision)' and 'LDLT decomposition of that matrix succeeded and is
positive' must hold of the argument itself (for a single variance: finite and not negative); a returned condition counts as
the facts its truth implies, helpers are looked through and joins intersect. Paths answering false need no justification.
The propagation routine's value number, rewritten to a normal form, must be J S Jt + epsilon I entry by entry, for every
instantiation.
"""
from formula import *


class Pol(Policy):
    deny = ("outputs::log", "outputs::log_warning", "outputs::log_error")
    max_depth = 12


def run(ctx):
    ctx.group(predicate)
    ctx.group(propagation)
    ctx.assume("Eigen's allFinite, isApprox and LDLT::isPositive decide what their documentation says.")


def leaf(t):
    return t.op == "call" and _n(t)


def _n(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def same(t, arg):
    """t is arg, possibly through a view of one triangle or a copy"""
    while t is not arg and t.op == "call" and _n(t) in ("selfadjointView", "eval", "base", "matrix", "derived", "array"):
        t = t.a[1]
    return t is arg


def facts_of(E, x):
    S = x.S.copy()
    if x.val is not None and cval(x.val) is None:
        if not E.assume(S, x.val, True):
            return None
    return S.facts


def finite(fs, arg):
    for k, v in fs.items():
        if k.op == "call" and v and _n(k) == "allFinite" and same(k.a[1], arg):
            return True
    return False


def symmetric(fs, arg):
    for k, v in fs.items():
        if k.op == "call" and v and _n(k) in ("isApprox",) and len(k.a) >= 3:
            a, b = k.a[1], k.a[2]
            p = k.a[3] if len(k.a) > 3 else None
            if p is not None and not (p.op == "call" and _n(p) == "dummy_precision") and \
                    not (cval(p) is not None and 0 <= cval(p) <= 1e-6):
                continue
            for u, w in ((a, b), (b, a)):
                if same(u, arg) and w.op == "call" and _n(w) in ("transpose", "adjoint") and same(w.a[1], arg):
                    return True
        if k.op == "==" and v:
            a, b = k.a[0], k.a[1]
            for u, w in ((a, b), (b, a)):
                if same(u, arg) and w.op == "call" and _n(w) in ("transpose", "adjoint") and same(w.a[1], arg):
                    return True
    return False


def positive(fs, arg):
    pos = info = False
    for k, v in fs.items():
        if k.op == "call" and v and _n(k) == "isPositive":
            d = k.a[1]
            if d.op in ("call", "new") and "ldlt" in str(d.a[0]).lower() and same(d.a[-1], arg):
                pos = True
        if k.op == "==" and len(k.a) == 2:
            a, b = str(k.a[0]), str(k.a[1])
            if "info(" in a + b and ("NumericalIssue" in a + b and not v or "Success" in a + b and v):
                info = True
    return pos and info, pos


def nonneg(E, fs, arg):
    e = mk("init", arg.a[0] + (("i", "at", num(0), num(0)),))
    want = {repr(mk("<=", num(0), y)) for y in (e,)}
    for k, v in fs.items():
        s = repr(k)
        if v and s in ("(0 <= %s)" % repr(e), "(0 < %s)" % repr(e)):
            return True, "<" in s.replace("<=", "")
        if not v and s in ("(%s < 0)" % repr(e), "(%s <= 0)" % repr(e)):
            return True, "<=" in s
    return False, False


def predicate(ctx):
    fs = pick(ctx, "is_covariance_valid")
    for fn in fs:
        E = Engine(ctx.prog, Pol())
        exits, throws = E.run(fn)
        ctx.count("functions_analysed")
        p = fn.params[0]
        arg = mk("init", (("o", "param", p["n"] or str(p["d"])),))
        sh = shape_of(ctx.prog, p["t"])
        if not sh:
            continue
        sid = "is_covariance_valid<%d>(%d arguments)" % (sh[0], len(fn.params))
        ctx.item(sid + ": every true answer implies finite, symmetric, positive semi-definite")
        for x in exits:
            ctx.count("paths")
            if x.val is not None and cval(x.val) is False:
                continue
            f = facts_of(E, x)
            if f is None:
                continue
            w = where(fn, x.node)
            if excused(ctx, f, arg, sid):
                continue
            if not finite(f, arg):
                ctx.violation("is_covariance_valid<%d>:finite" % sh[0], w,
                              "a true answer is reached without the entries having been found finite")
            if sh[0] == 1:
                ok, strict = nonneg(E, f, arg)
                if not ok:
                    ctx.violation("is_covariance_valid<1>:sign", w,
                                  "a true answer is reached without the variance having been found non-negative")
                elif strict:
                    ctx.violation("is_covariance_valid<1>:zero", w, "a null variance is refused")
                continue
            if not symmetric(f, arg):
                ctx.violation("is_covariance_valid<%d>:symmetric" % sh[0], w,
                              "a true answer is reached without the matrix having been found symmetric")
            ok, pos = positive(f, arg)
            if not ok:
                ctx.violation("is_covariance_valid<%d>:positive" % sh[0], w,
                              "a true answer is reached without %s" % (
                                  "the decomposition's success having been tested" if pos else
                                  "the matrix having been found positive semi-definite"))


UNKNOWN = ("eigenvalues", "SelfAdjointEigenSolver", "EigenSolver", "llt(", "LLT", "vectorD", "isfinite", "isFinite",
           "isMuchSmallerThan", "isZero", "maxCoeff", "lpNorm")


def excused(ctx, fs, arg, sid):
    """a fact in terms this rule does not know (eigenvalues, norms of the asymmetry, ...) could establish the property"""
    for k, v in fs.items():
        s = repr(k)
        if any(u in s for u in UNKNOWN) and "ldlt" not in s:
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: condition not understood: %s" % (sid, s[:100]))
            return True
    return False


def propagation(ctx):
    for fn in pick(ctx, "utils::propagate_covariance"):
        g = Fx(ctx, fn)
        n = shape_of(ctx.prog, fn.params[0]["t"])
        m = shape_of(ctx.prog, fn.params[1]["t"])
        if not n or not m:
            continue
        S, J, eps = matn("S", n[0], n[0], True), matn("J", m[0], m[1]), sym("eps")
        g.b[g.par(0)] = S
        g.b[g.par(1)] = J
        g.b[g.par(2)] = eps
        for x in g.exits:
            B = g.alg()
            compare(ctx, g, x, "propagate:%dx%d" % m, "propagation %dx%d is J S Jt + epsilon I" % m,
                    lambda: B.ev(x.val), lambda: congruence(J, S, eps))
