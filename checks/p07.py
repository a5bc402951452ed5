RULE = """
The value numbers of the spherical and inverse depth conversions are rewritten to normal forms over symbolic points,
angles, inverse depths and rigid transformations and compared with their equations, field by field and on every path; the
constructor's refusal condition is compared with the documented ranges by enumeration of the sign regions of the tested
quantities. The uncertainty segment must run from the projection of the furthest to that of the closest estimate (three
standard deviations), and must be left alone when the answer is false. The covariance built for a new observation, the
one converted back from Cartesian, and the linearity score are compared with their equations.
"""
from formula import *
from preds import *
import math

C = "InverseDepthWorldPoint::InverseDepthWorldPoint"


def run(ctx):
    ctx.group(spherical)
    ctx.group(ranges)
    ctx.group(building)
    ctx.group(world)
    ctx.group(interval)
    ctx.group(segment)
    ctx.group(lines)
    ctx.group(covariances)
    ctx.group(linearity)
    ctx.assume("Equality over the real numbers; points differ from the observer and depths are not null.")


def F(ctx):
    g = lambda n: getter(ctx, "InverseDepthWorldPoint::" + n)
    return {"o": g("get_first_observation"), "d": g("get_inverse_depth"), "th": g("get_theta"), "ph": g("get_phi"),
            "b": g("get_bearing_vector")}


def direction(th, ph):
    return M(3, 1, [fn1("sin", th) * fn1("cos", ph), fn1("sin", th) * fn1("sin", ph), fn1("cos", th)])


def angles(v):
    x, y, z = v.e
    return atan2(sqrt(x * x + y * y), z), atan2(y, x)


def spherical(ctx):
    for g in on(ctx, "Cartesian::from"):
        p, th, ph = sym("p"), sym("th"), sym("ph")
        for n, v in (("p", p), ("theta", th), ("phi", ph)):
            g.b[g.par(0, n)] = v
        for x in g.exits:
            A = g.alg()
            for n, e in zip("xyz", direction(th, ph).e):
                compare(ctx, g, x, n, "%d: %s of a spherical point" % (len(g.fn.params), n), lambda: A.sc(project(x.val, n)), p * e)
    for g in on(ctx, "Spherical::from"):
        v = vecn("v", 3)
        for n, e in zip("xyz", v.e):
            g.b[g.par(0, n)] = e
        th, ph = angles(v)
        nrm = sqrt(norm2(v))
        for x in g.exits:
            A = g.alg()
            for n, e, alt in (("p", nrm, None), ("theta", th, [lambda: fn1("acos", v.e[2] / nrm)]), ("phi", ph, None)):
                compare(ctx, g, x, n, "%d: %s of a Cartesian point" % (len(g.fn.params), n), lambda: A.sc(project(x.val, n)), e, alt)


def four(f):
    return len(f.params) == 4


def ranges(ctx):
    for g in on(ctx, C, four):
        d, th, ph = sym("d"), sym("th"), sym("ph")
        for i, v in ((1, d), (2, th), (3, ph)):
            g.b[g.par(i)] = v
        z, pi = const(0), const(math.pi)
        bad = Or(lt(d, z), lt(th, z), gt(th, pi), lt(ph, pi.scale(-1)), gt(ph, pi))
        decide(ctx, g, None, "ranges", "refuses exactly inverse depths < 0, theta outside [0, pi], phi outside [-pi, pi]",
               Pred(g).throws(), bad)


def check_fields(ctx, g, x, S, what, o, d, th, ph, alt_th=None):
    A = g.alg()
    fs = F(ctx)
    get = (lambda p: S(p))
    compare(ctx, g, x, "first", what + ": first observation", lambda: A.ev(get(fs["o"])), o)
    compare(ctx, g, x, "inverse-depth", what + ": inverse depth", lambda: A.ev(get(fs["d"])), d)
    compare(ctx, g, x, "theta", what + ": theta", lambda: A.ev(get(fs["th"])), th, alt_th)
    compare(ctx, g, x, "phi", what + ": phi", lambda: A.ev(get(fs["ph"])), ph)
    b = direction(th, ph)
    compare(ctx, g, x, "bearing", what + ": bearing vector", lambda: A.ev(get(fs["b"])), b)


def cart(o, p):
    v = p - o
    th, ph = angles(v)
    n = sqrt(norm2(v))
    return const(1) / n, th, ph


def building(ctx):
    o = vecn("o", 3)
    for g in on(ctx, C, four):
        d, th, ph = sym("d"), sym("th"), sym("ph")
        g.b[g.par(0)] = o
        for i, v in ((1, d), (2, th), (3, ph)):
            g.b[g.par(i)] = v
        for x in g.exits:
            check_fields(ctx, g, x, lambda p: self_read(x, p), "constructor", o, d, th, ph)
    for g in on(ctx, "InverseDepthWorldPoint::from_cartesian"):
        p = vecn("p", 3)
        g.b[g.par(0)], g.b[g.par(1)] = p, o
        d, th, ph = cart(o, p)
        for x in g.exits:
            check_fields(ctx, g, x, lambda q: proj_path(x.val, q), "from a Cartesian point/%d" % len(g.fn.params), o, d, th, ph)
    for g in on(ctx, C, lambda f: len(f.params) == 2):
        c = rigid("c")
        g.b[g.par(1)] = c
        org = c.block(0, 3, 3, 1)
        if "ScreenCoordinate2D" in g.fn.params[0]["t"]:
            fx, fy, cx, cy = intrinsics(g)
            s = vecn("s", 2)
            g.b[g.par(0)] = s
            cam = M(3, 1, [(s.e[0] - cx) / fx, (s.e[1] - cy) / fy, const(1)])
            d0 = baseline(ctx, g, "inverseDepthBaseline")
        else:
            cam = vecn("q", 3)
            g.b[g.par(0)] = cam
            d0 = None
        w = apply(c, cam)
        d, th, ph = cart(org, w)
        for x in g.exits:
            if d0 is not None:
                d = d0 / const(2)
            v = w - org
            check_fields(ctx, g, x, lambda p: self_read(x, p), "from an observation", org, d, th, ph,
                         [lambda: fn1("acos", v.e[2] / sqrt(norm2(v)))])


def baseline(ctx, g, name):
    for q in ctx.prog.globals:
        if q.endswith("::" + name):
            v = ctx.prog.globals[q]
            A = g.alg()
            return A.sc(mk("init", (("g", q),))) if not isinstance(v, dict) or v.get("cv") is None else const(v["cv"])
    ctx.need(False, name)


def world(ctx):
    fs = F(ctx)
    o, d, b = vecn("o", 3), sym("d"), vecn("b", 3)
    for g in on(ctx, "InverseDepthWorldPoint::to_world_coordinates"):
        g.b[g.this(*fs["o"])], g.b[g.this(*fs["d"])], g.b[g.this(*fs["b"])] = o, d, b
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "world", "the world point is the first observation plus bearing / inverse depth",
                    lambda: A.ev(x.val), o + b.map(lambda e: e / d))


def interval_point(o, b, d, s, sign):
    t = d + s.scale(3 * sign)
    m = fmax(t, const(Fraction(1, 10 ** 9)))
    return o + b.map(lambda e: e / m)


def interval(ctx):
    fs = F(ctx)
    o, d, b, s = vecn("o", 3), sym("d"), vecn("b", 3), sym("s")
    for n, sign in (("get_furthest_estimation", -1), ("get_closest_estimation", 1)):
        for g in on(ctx, "InverseDepthWorldPoint::" + n):
            g.b[g.this(*fs["o"])], g.b[g.this(*fs["d"])], g.b[g.this(*fs["b"])] = o, d, b
            g.b[g.par(0)] = s
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, n, "at inverse depth %s 3 standard deviations (at least 1e-9)" % ("minus" if sign < 0 else "plus"),
                        lambda: A.ev(x.val), interval_point(o, b, d, s, sign), [o + b.map(lambda e: e / (d + s.scale(3)))] if sign > 0 else None)


class SPolicy(FPolicy):
    deny = DENY + ("get_furthest_estimation", "get_closest_estimation")


def seg_fields(ctx):
    return getter(ctx, "ILine::get_start_point"), getter(ctx, "Segment::get_end_point")


def segment(ctx):
    a, e = seg_fields(ctx)
    for g in on(ctx, "InverseDepthWorldPoint::to_screen_coordinates", policy=SPolicy()):
        w, v = rigid("w"), sym("var")
        g.b[g.par(0)] = w
        g.b[g.par(1)] = v
        fx, fy, cx, cy = intrinsics(g)
        d3 = "3" in g.fn.params[2]["t"].split("Segment")[1]
        far, near = vecn("far", 3), vecn("near", 3)
        ok, ko = okfail(g)
        untouched(ctx, g, 2)
        for x in ok:
            ts = set()
            for p in (a, e):
                ts |= {t for t in subterms(x.S.read((("o", "param", g.fn.params[2]["n"]),) + p)) if t.op == "call" and
                       str(t.a[0]).split("::")[-1] in ("get_furthest_estimation", "get_closest_estimation")}
            A0 = g.alg()
            for t in ts:
                fur = "furthest" in str(t.a[0])
                g.b[t] = far if fur else near
                compare(ctx, g, x, "std", "the interval is that of the standard deviation", lambda: A0.sc(t.a[-1]), sqrt(v))
            A = g.alg()
            for p, q, n in ((a, far, "start"), (e, near, "end")):
                c = apply(w, q).e
                want = [fx * c[0] / c[2] + cx, fy * c[1] / c[2] + cy] + ([c[2]] if d3 else [])
                compare(ctx, g, x, "%s%d" % (n, len(want)), "the segment's %s (%dD) is the projection of the %s estimate" % (
                    n, len(want), "furthest" if q is far else "closest"),
                    lambda: A.ev(x.S.read((("o", "param", g.fn.params[2]["n"]),) + p)), M(len(want), 1, want))
    for g in on(ctx, "PointInverseDepth::to_screen_coordinates", policy=WPolicy()):
        S = matn("S", 6, 6, True)
        g.b[g.this("_covariance")] = S
        for x in g.exits:
            t = next((s for s in subterms(x.val) if s.op == "call" and "to_screen_coordinates" in str(s.a[0])), None)
            if t is None:
                ctx.count("undecided")
                continue
            A = g.alg()
            args = [a for a in t.a[1:] if isinstance(a, T)]
            vals = []
            for a in args:
                try:
                    v = A.ev(a)
                    if isinstance(v, R) and not unknown_atoms(v) and (deps_R(v, S)):
                        vals.append(v)
                except Shape:
                    pass
            if vals:
                compare(ctx, g, x, "tracked-segment", "the tracked point's segment is that of its own inverse depth variance",
                        vals[0], S.at(3, 3))


def deps_R(v, S):
    ids = {a.id for e in S.e for a in e.atoms()}
    return any(a.id in ids for a in v.atoms())


class WPolicy(FPolicy):
    deny = DENY + ("InverseDepthWorldPoint::to_screen_coordinates",)


def closest(p1, n1, p2, n2):
    n = cross(n1, n2)
    a, b = cross(n1, n), cross(n2, n)
    t1 = dot(p2 - p1, b) / dot(n1, b)
    t2 = dot(p1 - p2, a) / dot(n2, a)
    return p1 + n1.map(lambda e: e * t1), p2 + n2.map(lambda e: e * t2)


def lines(ctx):
    p1, n1, p2, n2 = vecn("p1", 3), vecn("n1", 3), vecn("p2", 3), vecn("n2", 3)
    c1, c2 = closest(p1, n1, p2, n2)
    for g in on(ctx, "utils::compute_closest_points"):
        for i, v in enumerate((p1, n1, p2, n2)):
            g.b[g.par(i)] = v
        ok, ko = okfail(g)
        for x in ok:
            A = g.alg()
            compare(ctx, g, x, "on1", "the point of line 1 closest to line 2", lambda: A.ev(g.out(x, 4)), c1)
            compare(ctx, g, x, "on2", "the point of line 2 closest to line 1", lambda: A.ev(g.out(x, 5)), c2)
        untouched(ctx, g, 4)
        untouched(ctx, g, 5)
    fs = F(ctx)
    todo = on(ctx, "utils::signed_line_distance") + on(ctx, "InverseDepthWorldPoint::compute_signed_distance",
                                                       lambda f: len(f.params) == 1)
    for g in todo:
        if "compute_signed" in g.fn.qn:
            for p, q, r in ((g.this, p1, n1), (lambda *a: g.par(0, *a), p2, n2)):
                g.b[p(*fs["o"])], g.b[p(*fs["b"])] = q, r
        else:
            for i, v in enumerate((p1, n1, p2, n2)):
                g.b[g.par(i)] = v
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "line-distance", "the distance of two lines joins their closest points (parallel lines: n x (p1 - p2))",
                    lambda: A.ev(x.val), c1 - c2, [lambda: cross(n1, p1 - p2)])


def covariances(ctx):
    for g in on(ctx, "PointInverseDepth::compute_inverse_depth_covariance"):
        S, P, J = matn("s", 3, 3, True), matn("p", 3, 3, True), matn("j", 6, 3)
        g.b[g.par(0)], g.b[g.par(1)], g.b[g.par(2)] = S, P, J
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "back", "the covariance is J S J' with the first pose's block kept",
                    lambda: A.mat(x.val), congruence(J, S).put(0, 0, P))
    for g in on(ctx, "PointInverseDepth::PointInverseDepth", lambda f: len(f.params) == 4):
        S = matn("s", 3, 3, True)
        g.b[g.par(2)] = S
        bl = baseline(ctx, g, "inverseDepthBaseline")
        an = baseline(ctx, g, "inverseDepthAngleBaseline") * baseline(ctx, g, "EulerToRadian")
        want = zeros(6, 6).put(0, 0, S).put(3, 3, M(1, 1, [bl * bl / const(16)]))
        for i in (4, 5):
            want = want.put(i, i, M(1, 1, [an * an]))
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "new-cov", "a new point's covariance is (pose, (baseline/4)^2, angle^2, angle^2) on the diagonal",
                    lambda: A.mat(self_read(x, ("_covariance",))), want,
                    ok=lambda a, b: isinstance(a, M) and (a.r, a.c) == (6, 6) and near(a, b))


def near(a, b):
    """constants may differ by rounding"""
    for x, y in zip(a.e, b.e):
        if not equal(x, y):
            cx, cy = x.const(), y.const()
            if cx is None or cy is None or abs(cx - cy) > abs(cy) * Fraction(1, 10 ** 9):
                return False
    return True


def linearity(ctx):
    fs = F(ctx)
    for g in on(ctx, "PointInverseDepth::compute_linearity_score"):
        o, d, b, c = vecn("o", 3), sym("d"), vecn("b", 3), rigid("c")
        for k, v in (("o", o), ("d", d), ("b", b)):
            g.b[g.this("_coordinates", *fs[k])] = v
        g.b[g.par(0)] = c
        S = matn("S", 6, 6, True)
        g.b[g.this("_covariance")] = S
        hc = o + b.map(lambda e: e / d) - c.block(0, 3, 3, 1)
        n = sqrt(norm2(hc))
        cosa = dot(b, hc) / n
        want = const(4) * sqrt(S.at(3, 3)) / (d * d) / n * absv(cosa)
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "linearity", "the linearity score is 4 sigma_d / (d^2 |h|) |cos alpha|", lambda: A.sc(x.val), want)
