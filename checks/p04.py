RULE = """
The value number of each transformation and of the Jacobian that goes with it are rewritten to rational normal forms over
square roots, sines, cosines and arc tangents; the transformation's normal form is differentiated by rule with respect to
each input and must equal the Jacobian entry by entry (difference of cross products reduces to the zero polynomial). For
covariances the delivered matrix must be J S Jt (plus a multiple of the identity) for that derivative J. Both sides are
read from the code, so a change of either alone is found.
"""
from formula import *


def fields(A, v, names):
    return [A.sc(project(v, n)) for n in names]


def run(ctx):
    ctx.group(basis)
    ctx.group(inverse_depth)
    ctx.group(camera)
    ctx.group(planes)
    ctx.assume("Equality is over the real numbers; floating-point rounding is not modelled. Derivatives hold where the "
               "transformation is differentiable.")


def bind_fields(fx, i, names, vals):
    for n, v in zip(names, vals):
        fx.b[fx.par(i, n)] = v


def basis(ctx):
    for cls, src, inn, out in (("Cartesian", "Spherical", ("p", "theta", "phi"), ("x", "y", "z")),
                               ("Spherical", "Cartesian", ("x", "y", "z"), ("p", "theta", "phi"))):
        plain = pick1(ctx, cls + "::from", lambda f: len(f.params) == 1)
        withj = pick1(ctx, cls + "::from", lambda f: len(f.params) == 2)
        ins = [sym("in_" + n) for n in inn]
        fp = Fx(ctx, plain)
        bind_fields(fp, 0, inn, ins)
        fj = Fx(ctx, withj)
        bind_fields(fj, 0, inn, ins)
        for xp in fp.exits:
            A = fp.alg()
            ys = fields(A, xp.val, out)
            for x in fj.exits:
                B = fj.alg()
                compare(ctx, fj, x, "jacobian", "Jacobian is the derivative of the conversion",
                        lambda: B.ev(fj.out(x, 1)), lambda: jac(ys, ins))
                for n, y in zip(out, ys):
                    compare(ctx, fj, x, "value:" + n, "component %s agrees with the conversion without Jacobian" % n,
                            lambda: B.sc(project(x.val, n)), y)


ID = ("_inverseDepth_mm", "_theta_rad", "_phi_rad")


def inverse_depth(ctx):
    # direct: state (first observation, inverse depth, theta, phi) -> world point
    d, th, ph = sym("d"), sym("theta"), sym("phi")
    o = vecn("o", 3)
    ctor = pick1(ctx, "InverseDepthWorldPoint::InverseDepthWorldPoint",
                 lambda f: len(f.params) == 4 and "double" in f.params[3]["t"])
    fc = Fx(ctx, ctor)
    fc.b[fc.par(0)] = o
    for i, v in ((1, d), (2, th), (3, ph)):
        fc.b[fc.par(i)] = v
    ctx.need(fc.exits, "constructor of the inverse depth point")
    xc = fc.exits[0]
    A = fc.alg()
    state = {}
    rec = ctx.prog.record("InverseDepthWorldPoint")[0]
    for f in rec["fields"]:
        state[f["n"]] = A.ev(xc.S.read((("o", "this"), f["n"])))
    plain = pick1(ctx, "InverseDepthWorldPoint::to_world_coordinates", lambda f: len(f.params) == 0)
    withj = pick1(ctx, "InverseDepthWorldPoint::to_world_coordinates", lambda f: len(f.params) == 1)
    fp, fj = Fx(ctx, plain), Fx(ctx, withj)
    for f in (fp, fj):
        for n, v in state.items():
            f.b[f.this(n)] = v
    xs = [o.e[0], o.e[1], o.e[2], d, th, ph]
    ys = fp.alg().mat(fp.exits[0].val)
    for x in fj.exits:
        B = fj.alg()
        compare(ctx, fj, x, "jacobian", "Jacobian of the world point by (first pose, inverse depth, theta, phi)",
                lambda: B.ev(fj.out(x, 0)), lambda: jac(ys.e, xs))
        compare(ctx, fj, x, "value", "world point agrees with the conversion without Jacobian",
                lambda: B.ev(x.val), ys)
    # inverse: cartesian point, origin -> inverse depth, theta, phi (the rows of the first pose are left to the caller)
    plain = pick1(ctx, "InverseDepthWorldPoint::from_cartesian", lambda f: len(f.params) == 2)
    withj = pick1(ctx, "InverseDepthWorldPoint::from_cartesian", lambda f: len(f.params) == 3)
    fp, fj = Fx(ctx, plain), Fx(ctx, withj)
    p = vecn("pt", 3)
    for f in (fp, fj):
        f.b[f.par(0)] = p
        f.b[f.par(1)] = o
    A = fp.alg()
    ys = fields(A, fp.exits[0].val, ID)
    for x in fj.exits:
        B = fj.alg()
        compare(ctx, fj, x, "jacobian", "Jacobian rows of (inverse depth, theta, phi) by the cartesian point",
                lambda: B.ev(fj.out(x, 2)).block(3, 0, 3, 3), lambda: jac(ys, p.e))
        compare(ctx, fj, x, "jacobian0", "Jacobian rows of the first pose are zero",
                lambda: B.ev(fj.out(x, 2)).block(0, 0, 3, 3), zeros(3, 3))
        for n, y in zip(ID, ys):
            compare(ctx, fj, x, "value:" + n, "field %s agrees with the conversion without Jacobian" % n,
                    lambda: B.sc(project(x.val, n)), y)


def camera(ctx):
    p = vecn("pt", 3)
    S = matn("S", 3, 3, True)
    # camera -> screen
    ts = pick1(ctx, "CameraCoordinate::to_screen_coordinates", lambda f: "ScreenCoordinate &" in f.params[0]["t"])
    f = Fx(ctx, ts)
    f.b[f.this()] = p
    ok = [x for x in f.exits if cval(x.val) is not False]
    ctx.need(ok, "successful exit of the projection")
    scr = f.alg().mat(f.out(ok[0], 0))
    for fn in pick(ctx, "utils::get_screen_point_covariance", lambda f: "World" not in f.params[0]["t"]):
        g = Fx(ctx, fn)
        g.b[g.par(0)] = p
        g.b[g.par(1)] = S
        for x in g.exits:
            B = g.alg()
            compare(ctx, g, x, "covariance:" + short_t(fn), "screen covariance is J S Jt for the projection's derivative",
                    lambda: B.ev(x.val), lambda: congruence(jac(scr.e, p.e), S))
    # screen -> camera
    ts = pick1(ctx, "ScreenCoordinate::to_camera_coordinates")
    f = Fx(ctx, ts)
    f.b[f.this()] = p
    cam = f.alg().mat(f.exits[0].val)
    for fn in pick(ctx, "utils::get_camera_point_covariance", lambda f: len(f.params) == 2):
        g = Fx(ctx, fn)
        g.b[g.par(0)] = p
        g.b[g.par(1)] = S
        for x in g.exits:
            B = g.alg()
            J = jac(cam.e, p.e)
            compare(ctx, g, x, "covariance",
                    "camera covariance is J S Jt for the back-projection's derivative (taken in absolute value)",
                    lambda: B.ev(x.val), lambda: congruence(absJ(J, absnum), S),
                    [lambda: congruence(J, S), lambda: congruence(absJ(J, absv), S)])
    # frame changes: the derivative of the point transformation is its rotation block
    for suffix, conv in (("utils::get_camera_point_covariance", "WorldCoordinate::to_camera_coordinates"),
                         ("utils::get_world_point_covariance", "CameraCoordinate::to_world_coordinates")):
        m = matn("m", 4, 4)
        t = pick1(ctx, conv)
        f = Fx(ctx, t)
        f.b[f.this()] = p
        for i in range(3):
            m = m.put(3, i, M(1, 1, [const(0)]))
        m = m.put(3, 3, M(1, 1, [const(1)]))
        f.b[f.par(0)] = m
        y = f.alg().mat(f.exits[0].val)
        C = matn("C", 3, 3, True)
        for fn in pick(ctx, suffix, lambda f: len(f.params) == 3 and "ScreenCoordinate" not in f.params[0]["t"]):
            g = Fx(ctx, fn)
            g.b[g.par(0)] = S
            g.b[g.par(1)] = m
            g.b[g.par(2)] = C
            for x in g.exits:
                B = g.alg()
                compare(ctx, g, x, "covariance:" + short_t(fn),
                        "covariance is J S Jt for the frame change's derivative, plus the pose covariance",
                        lambda: B.ev(x.val), lambda: congruence(jac(y.e, p.e), S) + C)


def absnum(x):
    return absv(R(x.n)) / R(x.d)


def absJ(J, f):
    """the absolute values the code takes: of the derivative by the depth (focal lengths are positive)"""
    return M(J.r, J.c, [f(J.at(i, j)) if j == 2 and i < 2 and not J.at(i, j).zero() else J.at(i, j)
                        for i in range(J.r) for j in range(J.c)])


def short_t(fn):
    return fn.params[0]["t"].replace("const ", "").replace("rgbd_slam::", "").strip(" &")


def planes(ctx):
    n, d = vecn("n", 3), sym("d")
    # 4 -> 3 parameters: v = n * d
    fn = pick1(ctx, "utils::compute_reduced_plane_point_cloud_covariance")
    g = Fx(ctx, fn)
    S = matn("S", 4, 4, True)
    g.b[g.par(0, "_normal")] = n
    g.b[g.par(0, "_d")] = d
    g.b[g.par(1)] = S
    J = jac([x * d for x in n.e], n.e + [d])
    for x in g.exits:
        B = g.alg()
        compare(ctx, g, x, "covariance", "reduced covariance is J S Jt + c I for v = n d",
                lambda: strip_diag(B.ev(x.val), congruence(J, S)), lambda: congruence(J, S))
    # 3 -> 4 parameters, the inverse of the reduction: (v / |v|, |v|) with v = n d
    fn = pick1(ctx, "utils::compute_plane_covariance")
    g = Fx(ctx, fn)
    S = matn("S", 3, 3, True)
    g.b[g.par(0, "_normal")] = n
    g.b[g.par(0, "_d")] = d
    g.b[g.par(1)] = S
    v = vecn("v", 3)
    r = sqrt(norm2(v))
    Jv = jac([y / r for y in v.e] + [r], v.e)
    nd = [y * d for y in n.e]
    J = Jv.map(lambda e: substitute(e, dict(zip([a for y in v.e for a in y.atoms()], nd))))
    for x in g.exits:
        B = g.alg()
        compare(ctx, g, x, "covariance", "plane covariance is J S Jt + c I for (v/|v|, |v|) at v = n d",
                lambda: strip_diag(B.ev(x.val), congruence(J, S)), lambda: congruence(J, S))


def strip_diag(m, ref):
    """removes a common non-negative constant from the diagonal"""
    c = (m.at(0, 0) - ref.at(0, 0)).const()
    if c is None or c < 0:
        return m
    for i in range(m.r):
        m = m.put(i, i, M(1, 1, [m.at(i, i) - const(c)]))
    return m
