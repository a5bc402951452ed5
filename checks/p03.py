RULE = """
Each instantiation of the filter step is summarised by value numbering (helpers looked through) and rewritten to normal
forms: the returned state must be F x + K (z - H F x) and the returned covariance (I - K H) P' (or its Joseph form), with
P' = F P Ft + Q, S = H P' Ht + R, K = P' Ht S^-1, compared entry by entry for symbolic matrices (P' and S are abbreviated
by fresh symmetric matrices once they have been matched). The single-system filter must store exactly that state and
covariance, start from its own stored ones, and, given new dynamics, use them. Constructors must store the matrices they
are given. The tracked point, plane and inverse depth point must hand (their own state, their own covariance, the
observation, its covariance) to a filter built with identity dynamics and observation and a positive multiple of the
identity as process noise, and must store what it returns.
"""
from formula import *


class KPolicy(FPolicy):
    pass


def run(ctx):
    ctx.group(step)
    ctx.group(single)
    ctx.group(point)
    ctx.group(plane)
    ctx.group(inverse_depth)
    ctx.group(filters)
    ctx.assume("Equality over the real numbers; the inverse and the pseudo-inverse of the innovation covariance are "
               "identified (they coincide when it is regular).")


def step(ctx):
    for fn in pick(ctx, "SharedKalmanFilter::get_new_state"):
        g = Fx(ctx, fn)
        n = shape_of(ctx.prog, fn.params[0]["t"])[0]
        m = shape_of(ctx.prog, fn.params[2]["t"])[0]
        F, H, Q = matn("F", n, n), matn("H", m, n), matn("Q", n, n, True)
        x0, P, z, Rm = vecn("x", n), matn("P", n, n, True), vecn("z", m), matn("R", m, m, True)
        g.b.update({g.par(0): x0, g.par(1): P, g.par(2): z, g.par(3): Rm, g.this("_systemDynamics"): F,
                    g.this("_outputMatrix"): H, g.this("_processNoiseCovariance"): Q, g.this("_identity"): identity(n)})
        Pp = congruence(F, P) + Q
        ok = [x for x in g.exits]
        ctx.need(ok, "return of the filter step")
        for x in ok:
            B = g.alg()
            xe = F.mul(x0)
            xc = B.cut(xe, "xe", False)
            Pc = B.cut(Pp, "Pe", True)
            Sc = B.cut(congruence(H, Pc) + Rm, "Se", True)
            K = Pc.mul(H.T()).mul(inverse(Sc))
            Kc = B.cut(K, "K", False)
            A = identity(n) - Kc.mul(H)
            tag = "%dx%d" % (n, m)
            compare(ctx, g, x, "state:" + tag, "new state is F x + K (z - H F x), " + tag,
                    lambda: B.ev(project(x.val, "first")), lambda: xc + Kc.mul(z - H.mul(xc)),
                    [lambda: xc - Kc.mul(H.mul(xc) - z)])
            full = A.mul(Pc)
            compare(ctx, g, x, "covariance:" + tag, "new covariance is (I - K H) P', " + tag,
                    lambda: lower(B.ev(project(x.val, "second"))), lambda: lower(full),
                    [lambda: lower(full.T()), lambda: lower(congruence(A, Pc) + congruence(Kc, Rm)),
                     lambda: lower((full + full.T()).map(lambda e: e.scale(Fraction(1, 2)))),
                     lambda: lower(Pc - Kc.mul(Sc).mul(Kc.T())), lambda: lower(Pc - Kc.mul(H).mul(Pc))])
    for fn in pick(ctx, "SharedKalmanFilter::SharedKalmanFilter", lambda f: len(f.params) == 3):
        g = Fx(ctx, fn)
        n = shape_of(ctx.prog, fn.params[0]["t"])[0]
        for x in g.exits:
            for i, f in enumerate(("_systemDynamics", "_outputMatrix", "_processNoiseCovariance")):
                B = g.alg()
                compare(ctx, g, x, "ctor:" + f, "the %s given is the one used (dimension %d)" % (f.strip("_"), n),
                        lambda: B.ev(x.S.read((("o", "this"), f))), lambda: B.ev(g.par(i)))
            B = g.alg()
            if any(f["n"] == "_identity" for r in ctx.prog.record("SharedKalmanFilter") for f in r["fields"]):
                compare(ctx, g, x, "ctor:_identity", "the identity has ones on the diagonal (dimension %d)" % n,
                        lambda: B.ev(x.S.read((("o", "this"), "_identity"))), identity(n))


from fractions import Fraction  # noqa: E402


def lower(m):
    return M(m.r, m.c, [m.at(max(i, j), min(i, j)) for i in range(m.r) for j in range(m.c)])


class SPolicy(FPolicy):
    deny = DENY + ("get_new_state", "compute_cartesian_covariance",
                   "to_world_coordinates", "from_cartesian", "compute_inverse_depth_covariance", "build_kalman_filter")

    def inline(self, fn, frame):
        return "olygon" not in (fn.cls or "") and Policy.inline(self, fn, frame)


class Seen(Hooks):
    """the dynamics stored in the filter when a step is made"""

    def __init__(self):
        self.dyn = []

    def call(self, E, name, callee, objloc, objval, args, arglocs, S, F, node):
        if "get_new_state" in str(name) and objloc is not None:
            self.dyn.append(S.read(objloc + ("_systemDynamics",)))


def news(t):
    """calls of the filter step in a term"""
    return [s for s in subterms(t) if s.op == "call" and "get_new_state" in str(s.a[0])]


def expect(ctx, g, x, key, what, got, want):
    ctx.item("%s: %s" % (g.sid, what))
    if got is not want and not (isinstance(want, (list, tuple)) and got in want):
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, x.node if x is not None else None), what + " does not hold")
        return False
    return True


def value(v):
    while v.op == "call" and str(v.a[0]).split("::")[-1] in ("base", "eval", "matrix") and len(v.a) == 2:
        v = v.a[1]
    return v


def same(a, b):
    return value(a) is value(b)


def stepargs(c):
    """(state, covariance, measurement, measurement covariance) of a filter step"""
    return [a for a in c.a[1:] if isinstance(a, T)][-4:]


def single(ctx):
    for fn in pick(ctx, "KalmanFilter::update", lambda f: "Shared" not in f.qn):
        h = Seen()
        g = Fx(ctx, fn, SPolicy(), hooks=h)
        tag = "%d" % len(fn.params)
        for x in g.exits:
            st = x.S.read((("o", "this"), "_stateEstimate"))
            cv = x.S.read((("o", "this"), "_estimateErrorCovariance"))
            calls = news(st)
            ctx.item("%s/%s: the result of one filter step on the stored state is stored" % (g.sid, tag))
            bad = None
            if len(calls) != 1:
                bad = "the stored state is not the result of a filter step"
            else:
                c = calls[0]
                a = stepargs(c)
                want = [g.this("_stateEstimate"), g.this("_estimateErrorCovariance"), g.par(0), g.par(1)]
                if st is not project(c, "first"):
                    bad = "the stored state is not the filter's new state"
                elif cv is not project(c, "second"):
                    bad = "the stored covariance is not the filter's new covariance"
                elif not all(same(u, w) for u, w in zip(a, want)):
                    bad = "the filter step is not given the stored state and covariance and the measurement in order"
                elif len(fn.params) == 3 and any(d is not g.par(2) for d in h.dyn):
                    bad = "the dynamics given are not the ones stored for the step"
            if bad:
                ctx.violation("%s:%s" % (g.sid, tag), where(fn, x.node), bad)
    for fn in pick(ctx, "KalmanFilter::init", lambda f: "Shared" not in f.qn):
        g = Fx(ctx, fn, SPolicy())
        for x in g.exits:
            expect(ctx, g, x, "cov", "init stores the covariance", x.S.read((("o", "this"), "_estimateErrorCovariance")), g.par(0))
            expect(ctx, g, x, "state", "init stores the state", x.S.read((("o", "this"), "_stateEstimate")), g.par(1))
            expect(ctx, g, x, "flag", "init marks the filter initialised", x.S.read((("o", "this"), "_isInitialized")), TRUE)
    for n, f in (("get_state", "_stateEstimate"), ("get_state_covariance", "_estimateErrorCovariance"),
                 ("is_initialized", "_isInitialized")):
        for fn in pick(ctx, "KalmanFilter::" + n):
            g = Fx(ctx, fn, SPolicy())
            for x in g.exits:
                expect(ctx, g, x, n, "%s answers the stored value" % n, x.val, g.this(f))


def fails(fn, x):
    c = cval(x.val) if x.val is not None else None
    return c is not None and (c is False or c is not True and c < 0)


def tracked(ctx, fn, own, cov, meas, mcov, outs):
    """own/cov/meas/mcov: predicates of terms; outs: list of (field, term of the step that must be stored)"""
    g = Fx(ctx, fn, SPolicy())
    n = 0
    for x in g.exits:
        if fails(fn, x):
            continue
        n += 1
        cs = set()
        for f in {f for f, _, _ in outs}:
            for c in news(x.S.read((("o", "this"), f))):
                cs.add(c)
        ctx.item("%s: one filter step on (own state, own covariance, observation, its covariance)" % g.sid)
        if len(cs) != 1:
            ctx.violation(g.sid + ":step", where(fn, x.node), "a success is reported without storing the result of one "
                          "filter step (%d found)" % len(cs))
            continue
        c = cs.pop()
        a = stepargs(c)
        for t, p, what in zip(a, (own, cov, meas, mcov), ("own state", "own covariance", "observation",
                                                          "covariance of the observation")):
            if not p(g, value(t)):
                ctx.violation("%s:%s" % (g.sid, what), where(fn, x.node), "the filter is not given the %s" % what)
        for f, want, what in outs:
            got = x.S.read((("o", "this"), f))
            ctx.item("%s: the %s is stored" % (g.sid, what))
            if not want(g, got, c):
                ctx.violation("%s:%s" % (g.sid, what), where(fn, x.node), "the %s delivered by the filter is not what "
                              "is stored" % what)
    ctx.need(n, "successful exit of " + fn.short)


def conv(t):
    """strips conversions that only change the static type"""
    while True:
        t = value(t)
        if t.op in ("new", "cinit") and len([y for y in t.a if isinstance(y, T)]) == 1:
            t = [y for y in t.a if isinstance(y, T)][0]
            continue
        return t


def point(ctx):
    for fn in pick(ctx, "tracking::Point::track"):
        tracked(ctx, fn, lambda g, t: conv(t) is g.this("_coordinates"), lambda g, t: conv(t) is g.this("_covariance"),
                lambda g, t: conv(t) is g.par(0), lambda g, t: conv(t) is g.par(1),
                [("_coordinates", lambda g, t, c: conv(t) is project(c, "first"), "new state"),
                 ("_covariance", lambda g, t, c: conv(t) is project(c, "second"), "new covariance")])


def plane(ctx):
    for fn in pick(ctx, "tracking::Plane::track"):
        def par(g, t, root):
            r = {repr(x) for x in subterms(t) if x.op == "init"}
            return r and all(x.startswith(root) for x in r)
        tracked(ctx, fn, lambda g, t: par(g, t, repr(g.this("_parametrization"))),
                lambda g, t: conv(t) is g.this("_covariance"),
                lambda g, t: par(g, t, repr(g.par(2))), lambda g, t: conv(t) is g.par(3),
                [("_covariance", lambda g, t, c: conv(t) is project(c, "second"), "new covariance"),
                 ("_parametrization", lambda g, t, c: project(c, "first") in set(subterms(t)), "new state")])


def inverse_depth(ctx):
    def has(name, *own):
        return lambda g, t: t.op == "call" and name in str(t.a[0]) and any(
            repr(s).startswith(repr(g.this(o))) for o in own for s in subterms(t))
    for fn in pick(ctx, "PointInverseDepth::update_with_cartesian"):
        tracked(ctx, fn, has("to_world_coordinates", "_coordinates"),
                has("compute_cartesian_covariance", "_covariance"),
                lambda g, t: conv(t) is g.par(0), lambda g, t: conv(t) is g.par(1),
                [("_coordinates", lambda g, t, c: any("from_cartesian" in str(s.a[0]) and project(c, "first") in
                                                      set(subterms(s)) for s in subterms(t) if s.op == "call"), "new state"),
                 ("_covariance", lambda g, t, c: any("compute_inverse_depth_covariance" in str(s.a[0]) and
                                                     project(c, "second") in set(subterms(s))
                                                     for s in subterms(t) if s.op == "call"), "new covariance")])


def filters(ctx):
    for fn in pick(ctx, "build_kalman_filter"):
        g = Fx(ctx, fn, FPolicy())
        n = 0
        for x in g.exits:
            vs = [v for r, d in x.S.store.items() for p, v in d.items()]
            vs += [w for v in vs if v in g.E.cond for w, _, _ in g.E.cond[v]]
            for v in vs:
                for s in subterms(v):
                    if ("SharedKalmanFilter" in str(s.a[0]) or str(s.a[0]).split("<")[0].endswith("make_unique")) and len([a for a in s.a[1:] if isinstance(a, T)]) == 3 and \
                            s.op in ("call", "new"):
                        n += 1
                        a = [y for y in s.a[1:] if isinstance(y, T)]
                        for i, what in ((0, "dynamics"), (1, "observation matrix")):
                            B = g.alg()
                            compare(ctx, g, x, what, "the %s of the shared filter is the identity" % what,
                                    lambda: B.ev(a[i]), lambda: identity(B.ev(a[i]).r))
                        B = g.alg()
                        compare(ctx, g, x, "noise", "the process noise is a positive multiple of the identity",
                                lambda: B.ev(a[2]), lambda: posdiag(B.ev(a[2])))
        if not n:
            ctx.count("undecided")
            ctx.notes.append("undecided: construction of the shared filter not found in %s" % fn.short)


def posdiag(m):
    c = m.at(0, 0).const()
    if c is None or c <= 0:
        raise Shape("process noise is not constant") if c is None else Neg()
    return identity(m.r).map(lambda e: e.scale(c))


class Neg(Shape):
    pass
