RULE = """
Every way to make a plane (constructors, assignment) must leave the unit vector along the given normal and the given
distance, on every path. The value number of each plane operation is rewritten to a normal form over a symbolic plane,
point and rigid transformation and compared with its equation: the plane transformation matrix [R 0; -t'R 1] and its matrix
inverse, conversions as matrix times parameters with the normal re-normalised, n.p + d, -d n, normal cosines, and the two
plane errors. The covariance brought to the world is that of the point form, rotated, plus the pose's.
"""
from formula import *
from preds import *


def run(ctx):
    ctx.group(making)
    ctx.group(parts)
    ctx.group(matrices)
    ctx.group(conversions)
    ctx.group(errors)
    ctx.group(covariance)
    ctx.assume("Equality over the real numbers; normals are not null when they are normalised, and transformation "
               "matrices hold a rotation.")


def fields(ctx):
    return getter(ctx, "PlaneCoordinates::get_normal"), getter(ctx, "PlaneCoordinates::get_d")


def making(ctx):
    N, D = fields(ctx)
    n, d = vecn("n", 3), sym("d")
    want = normalized(n)
    for fn in pick(ctx, "PlaneCoordinates::PlaneCoordinates") + pick(ctx, "PlaneCoordinates::operator="):
        if not fn.params:
            continue
        g = Fx(ctx, fn, distinct=True)
        sh = shape_of(ctx.prog, fn.params[0]["t"])
        if sh == (4, 1):
            g.b[g.par(0)] = M(4, 1, n.e + [d])
            k = "vector4"
        elif sh == (3, 1) and len(fn.params) == 2:
            g.b[g.par(0)] = n
            g.b[g.par(1)] = d
            k = "normal,d"
        elif "PlaneCoordinates" in fn.params[0]["t"]:
            g.b[g.par(0, *N)] = n
            g.b[g.par(0, *D)] = d
            k = "copy"
        else:
            continue
        for x in g.exits:
            if "operator=" in fn.qn:
                k = "assign"
            A = g.alg()
            compare(ctx, g, x, "normal:" + k, "(%s) the normal is the unit vector along the given one" % k,
                    lambda: A.ev(self_read(x, N)), want)
            compare(ctx, g, x, "d:" + k, "(%s) the distance is the given one" % k, lambda: A.ev(self_read(x, D)), d)


def parts(ctx):
    N, D = fields(ctx)
    n, d, p, m = vecn("n", 3), sym("d"), vecn("p", 3), vecn("m", 3)
    specs = (("get_parametrization", "the parameters are (normal, d)", M(4, 1, n.e + [d])),
             ("get_center", "the center is -d n", n.map(lambda e: e * d.scale(-1))),
             ("get_point_distance", "the distance of a point is n.p + d", dot(n, p) + d),
             ("get_cos_angle", "the cosine of two planes is that of their normals", dot(n, m)))
    for name, what, want in specs:
        for g in on(ctx, "PlaneCoordinates::" + name):
            g.b[g.this(*N)] = n
            g.b[g.this(*D)] = d
            if name == "get_point_distance":
                g.b[g.par(0)] = p
            if name == "get_cos_angle":
                g.b[g.par(0, *N)] = m
                g.b[g.par(0, *D)] = sym("md")
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, name, what, lambda: A.ev(x.val), want)


def plane_matrix(C):
    Rm, t = C.block(0, 0, 3, 3), C.block(0, 3, 3, 1)
    return identity(4).put(0, 0, Rm).put(3, 0, t.T().mul(Rm).map(lambda e: e.scale(-1)))


def matrices(ctx):
    C = rigid("c")
    for g in on(ctx, "utils::compute_plane_camera_to_world_matrix"):
        g.b[g.par(0)] = C
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "plane-matrix", "planes go to the world with [R 0; -t'R 1]", lambda: A.ev(x.val), plane_matrix(C))
    for g in on(ctx, "utils::compute_plane_world_to_camera_matrix"):
        W = rigid("w")
        g.b[g.par(0)] = W
        Wi = inverse(W)
        for x in g.exits:
            A = g.alg()
            # [R' 0; t' 1] for the camera to world transformation, written with the world to camera one: [Rw 0; -(Rw' tw)' 1]
            Rw, tw = W.block(0, 0, 3, 3), W.block(0, 3, 3, 1)
            compare(ctx, g, x, "plane-inverse", "planes come back with the inverse of the plane matrix", lambda: A.ev(x.val),
                    lambda: inverse(plane_matrix(Wi)),
                    [lambda: identity(4).put(0, 0, Rw).put(3, 0, tw.T().mul(Rw).map(lambda e: e.scale(-1))),
                     lambda: identity(4).put(0, 0, Wi.block(0, 0, 3, 3).T()).put(3, 0, Wi.block(0, 3, 3, 1).T()),
                     lambda: identity(4).put(0, 0, inverse(Wi.block(0, 0, 3, 3))).put(3, 0, Wi.block(0, 3, 3, 1).T())])


def moved(Mx, n, d):
    v = Mx.mul(M(4, 1, n.e + [d]))
    return normalized(M(3, 1, v.e[:3])), v.e[3]


def conversions(ctx):
    N, D = fields(ctx)
    n, d = vecn("n", 3), sym("d")
    Mx = matn("m", 4, 4)
    wn, wd = moved(Mx, n, d)
    for sfx in ("PlaneCameraCoordinates::to_world_coordinates", "PlaneWorldCoordinates::to_camera_coordinates"):
        for g in on(ctx, sfx):
            g.b[g.this(*N)] = n
            g.b[g.this(*D)] = d
            g.b[g.par(0)] = Mx
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, "normal", "the converted normal is the matrix applied to (n, d), as a unit vector",
                        lambda: A.ev(proj_path(x.val, N)), wn)
                compare(ctx, g, x, "d", "the converted distance is the matrix applied to (n, d)",
                        lambda: A.ev(proj_path(x.val, D)), wd)


def errors(ctx):
    N, D = fields(ctx)
    n, d, cn, cd = vecn("n", 3), sym("d"), vecn("k", 3), sym("e")
    Mx = matn("m", 4, 4)
    wn, wd = moved(Mx, n, d)

    def wrapped(a, b):
        t = a - b
        return atan2(fn1("sin", t), fn1("cos", t))
    specs = (("get_signed_distance", "the plane error is (wrapped normal differences, d difference) in the camera",
              M(4, 1, [wrapped(a, b) for a, b in zip(cn.e, wn.e)] + [cd - wd])),
             ("get_reduced_signed_distance", "the reduced plane error is the difference of the d n vectors in the camera",
              M(3, 1, [cd * a - wd * b for a, b in zip(cn.e, wn.e)])))
    for name, what, want in specs:
        for g in on(ctx, "PlaneWorldCoordinates::" + name):
            g.b[g.this(*N)] = n
            g.b[g.this(*D)] = d
            g.b[g.par(0, *N)] = cn
            g.b[g.par(0, *D)] = cd
            g.b[g.par(1)] = Mx
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, name, what, lambda: A.ev(x.val), want)


class CPolicy(FPolicy):
    deny = DENY + ("compute_plane_covariance", "compute_reduced_plane_point_cloud_covariance")


def covariance(ctx):
    N, D = fields(ctx)
    for g in on(ctx, "utils::get_world_plane_covariance", policy=CPolicy()):
        n, d = vecn("n", 3), sym("d")
        C, Mx, S, P = rigid("c"), matn("m", 4, 4), matn("s", 3, 3, True), matn("p", 3, 3, True)
        g.b[g.par(0, *N)] = n
        g.b[g.par(0, *D)] = d
        g.b[g.par(1)] = C
        g.b[g.par(2)] = Mx
        g.b[g.par(4)] = P
        red = [t for x in g.exits for t in subterms(x.val) if t.op == "call" and
               str(t.a[0]).endswith("compute_reduced_plane_point_cloud_covariance")]
        for t in set(red):
            g.b[t] = S
            ctx.item("get_world_plane_covariance: the point form is that of the given plane and covariance")
            args = t.a[1:]
            if not (g.par(0) in args or any(g.par(0) in subterms(a) for a in args if isinstance(a, T))) or \
                    not any(isinstance(a, T) and g.par(3) in subterms(a) for a in args):
                ctx.violation("world-plane:reduced", where(g.fn), "the reduced covariance is not that of the given plane")
        for x in g.exits:
            v = x.val
            if v is None or v.op != "call" or not str(v.a[0]).endswith("compute_plane_covariance"):
                ctx.count("undecided")
                ctx.notes.append("undecided: get_world_plane_covariance: result")
                continue
            args = [a for a in v.a[1:] if isinstance(a, T)]
            A = g.alg()
            compare(ctx, g, x, "world-cov", "the world covariance is R S R' plus that of the pose",
                    lambda: A.mat(args[-1]), congruence(C.block(0, 0, 3, 3), S) + P)
            wn, wd = moved(Mx, n, d)
            compare(ctx, g, x, "world-plane-n", "the covariance is computed for the world plane (normal)",
                    lambda: A.ev(proj_path(args[0], N)), wn)
            compare(ctx, g, x, "world-plane-d", "the covariance is computed for the world plane (distance)",
                    lambda: A.ev(proj_path(args[0], D)), wd)
