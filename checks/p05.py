RULE = """
Each conversion's value number is rewritten to a normal form over symbolic points, intrinsics and rigid transformations and
compared with the pinhole and rigid body equations; the two directions are also composed symbolically and must give back
the argument. The world to camera matrix must be the matrix inverse of the camera to world matrix for the same pose. An
output argument of a projection must be untouched on every path that answers false. The visibility test's true answer must
imply exactly the four image bounds (and a positive depth for points with depth). Distances must be the difference to the
projection and its 1-norm.
"""
from formula import *
from preds import *
from harness import Undecided


def run(ctx):
    ctx.group(screen)
    ctx.group(frames)
    ctx.group(transforms)
    ctx.group(distances)
    ctx.group(visibility)
    ctx.group(angles)
    ctx.assume("Equality over the real numbers; the z of a projected point is not null, the intrinsics are those in effect "
               "when they are first used.")


def K(ctx, g):
    """symbolic intrinsics"""
    f, c = vecn("f", 2), vecn("c", 2)
    for n, v in (("_camera1Focal", f), ("_camera1Center", c)):
        g.b[mk("init", (("g", "rgbd_slam::Parameters::" + n),))] = v
    return f.e + c.e


def screen(ctx):
    for g in on(ctx, "ScreenCoordinate::to_camera_coordinates"):
        fx, fy, cx, cy = K(ctx, g)
        p = vecn("s", 3)
        g.b[g.this()] = p
        u, v, z = p.e
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "backproject", "back-projection is ((u - cx) z / fx, (v - cy) z / fy, z)",
                    lambda: A.ev(x.val), M(3, 1, [(u - cx) * z / fx, (v - cy) * z / fy, z]))
        cam = g.alg().mat(g.exits[0].val)
        for h in on(ctx, "CameraCoordinate::to_screen_coordinates"):
            K(ctx, h)
            d3 = "ScreenCoordinate2D" not in h.fn.params[0]["t"]
            q = vecn("q", 3)
            X, Y, Z = q.e
            ok, ko = okfail(h)
            for x in ok:
                h.b[h.this()] = q
                A = h.alg()
                w = [fx * X / Z + cx, fy * Y / Z + cy] + ([Z] if d3 else [])
                compare(ctx, h, x, "project%d" % len(w), "projection is (fx X / Z + cx, fy Y / Z + cy%s)" % (", Z" if d3 else ""),
                        lambda: A.ev(h.out(x, 0)), M(len(w), 1, w))
                h.b[h.this()] = cam
                B = h.alg()
                compare(ctx, h, x, "roundtrip%d" % len(w), "projecting a back-projected pixel gives the pixel back",
                        lambda: B.ev(h.out(x, 0)), M(len(w), 1, p.e[:len(w)]))
            untouched(ctx, h, 0)
    for g in on(ctx, "ScreenCoordinate2D::to_camera_coordinates"):
        fx, fy, cx, cy = K(ctx, g)
        p = vecn("s", 2)
        g.b[g.this()] = p
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "backproject2", "2D back-projection is ((u - cx) / fx, (v - cy) / fy)",
                    lambda: A.ev(x.val), M(2, 1, [(p.e[0] - cx) / fx, (p.e[1] - cy) / fy]))
        cam = g.alg().mat(g.exits[0].val)
        for h in on(ctx, "CameraCoordinate2D::to_screen_coordinates"):
            K(ctx, h)
            h.b[h.this()] = cam
            for x in okfail(h)[0]:
                B = h.alg()
                compare(ctx, h, x, "roundtrip2", "projecting a back-projected pixel (no depth) gives the pixel back",
                        lambda: B.ev(h.out(x, 0)), p)
            untouched(ctx, h, 0)
    for g in on(ctx, "ScreenCoordinate::get_2D"):
        p = vecn("s", 3)
        g.b[g.this()] = p
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "2d", "the 2D part of a pixel is its (u, v)", lambda: A.ev(x.val), M(2, 1, p.e[:2]))


def frames(ctx):
    for suffix in ("CameraCoordinate::to_world_coordinates", "WorldCoordinate::to_camera_coordinates"):
        for g in on(ctx, suffix):
            p, m = vecn("p", 3), rigid("m")
            g.b[g.this()] = p
            g.b[g.par(0)] = m
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, "rigid", "the frame change is R p + t", lambda: A.ev(x.val), apply(m, p))
    for g in on(ctx, "CameraCoordinate::CameraCoordinate", lambda f: len(f.params) == 1 and shape_of(ctx.prog, f.params[0]["t"]) == (4, 1)):
        h = vecn("h", 4)
        g.b[g.par(0)] = h
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "homogeneous", "homogeneous coordinates are divided by their last component",
                    lambda: A.ev(x.S.read((("o", "this"),))), M(3, 1, [y / h.e[3] for y in h.e[:3]]))
    # screen -> world is the composition
    for g in on(ctx, "ScreenCoordinate::to_world_coordinates"):
        fx, fy, cx, cy = K(ctx, g)
        p, m = vecn("s", 3), rigid("m")
        g.b[g.this()] = p
        g.b[g.par(0)] = m
        u, v, z = p.e
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "composition", "pixel to world is the frame change of the back-projection",
                    lambda: A.ev(x.val), apply(m, M(3, 1, [(u - cx) * z / fx, (v - cy) * z / fy, z])))
    for g in on(ctx, "WorldCoordinate::to_screen_coordinates"):
        fx, fy, cx, cy = K(ctx, g)
        p, m = vecn("p", 3), rigid("m")
        g.b[g.this()] = p
        g.b[g.par(0)] = m
        c = apply(m, p).e
        d3 = "ScreenCoordinate2D" not in g.fn.params[1]["t"]
        w = [fx * c[0] / c[2] + cx, fy * c[1] / c[2] + cy] + ([c[2]] if d3 else [])
        for x in okfail(g)[0]:
            A = g.alg()
            compare(ctx, g, x, "composition%d" % len(w), "world to pixel is the projection of the frame change",
                    lambda: A.ev(g.out(x, 1)), M(len(w), 1, w))
        untouched(ctx, g, 1)


def transforms(ctx):
    for g in on(ctx, "utils::get_transformation_matrix"):
        sh = shape_of(ctx.prog, g.fn.params[0]["t"])
        t = vecn("t", 3)
        g.b[g.par(1)] = t
        if sh == (4, 1):
            q = vecn("q", 4)
            g.b[g.par(0)] = q
            x_, y, z, w = q.e
            o, two = const(1), const(2)
            Rm = M(3, 3, [o - two * (y * y + z * z), two * (x_ * y - z * w), two * (x_ * z + y * w),
                          two * (x_ * y + z * w), o - two * (x_ * x_ + z * z), two * (y * z - x_ * w),
                          two * (x_ * z - y * w), two * (y * z + x_ * w), o - two * (x_ * x_ + y * y)])
        else:
            Rm = matn("r", 3, 3)
            g.b[g.par(0)] = Rm
        want = identity(4).put(0, 0, Rm).put(0, 3, t)
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "matrix:%s" % (sh,), "the transformation matrix is [R t; 0 1]", lambda: A.ev(x.val), want)
    for suffix in ("utils::compute_world_to_camera_transform", "utils::compute_camera_to_world_transform"):
        for g in on(ctx, suffix, lambda f: len(f.params) == 1):
            m = matn("m", 4, 4)
            g.b[g.par(0)] = m
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, "inverse", "the reverse transformation is the matrix inverse", lambda: A.ev(x.val),
                        lambda: inverse(m), [lambda: rigid_inverse(m)])
    for sfx in ("", "_no_correction"):
        c2w = Fx(ctx, pick1(ctx, "utils::compute_camera_to_world_transform" + sfx, lambda f: len(f.params) == 2))
        w2c = Fx(ctx, pick1(ctx, "utils::compute_world_to_camera_transform" + sfx, lambda f: len(f.params) == 2))
        q, t = vecn("q", 4), vecn("t", 3)
        for g in (c2w, w2c):
            g.b[g.par(0)] = q
            g.b[g.par(1)] = t
        A, B = c2w.alg(), w2c.alg()
        m = A.mat(c2w.exits[0].val)
        for x in w2c.exits:
            compare(ctx, w2c, x, "inverse", "world to camera is the inverse of camera to world for the same pose",
                    lambda: B.ev(x.val), lambda: inverse(m))
        if not sfx:
            base = c2w.E
            # the camera axes correction times the pose's transformation
            T_ = Fx(ctx, pick1(ctx, "utils::get_transformation_matrix", lambda f: shape_of(ctx.prog, f.params[0]["t"]) == (4, 1)))
            T_.b[T_.par(0)] = q
            T_.b[T_.par(1)] = t
            pose = T_.alg().mat(T_.exits[0].val)
            C = matn("C", 4, 4)
            gl = [mk("init", (("g", n),)) for n in ctx.prog.globals if n.endswith("::CameraToWorld")]
            if gl:
                c2w.b[gl[0]] = C
                A2 = c2w.alg()
                compare(ctx, c2w, c2w.exits[0], "pose", "camera to world is the axes correction times the pose [R t; 0 1]",
                        lambda: A2.ev(c2w.exits[0].val), lambda: C.mul(pose))


def rigid_inverse(m):
    Rt = m.block(0, 0, 3, 3).T()
    t = Rt.mul(m.block(0, 3, 3, 1)).map(lambda e: e.scale(-1))
    return identity(4).put(0, 0, Rt).put(0, 3, t)


class DPolicy(FPolicy):
    deny = DENY + ("to_screen_coordinates", "to_world_coordinates", "get_signed_distance_2D_px", "get_signed_distance_mm")


def distances(ctx):
    # one norm of the signed distance; the signed distance is the difference
    for fn in pick(ctx, "WorldCoordinate::get_signed_distance_mm"):
        g = Fx(ctx, fn)
        p = vecn("p", 3)
        g.b[g.this()] = p
        K(ctx, g)
        if len(fn.params) == 1:
            q = vecn("q", 3)
            g.b[g.par(0)] = q
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, "mm-world", "signed distance between world points is their difference",
                        lambda: A.ev(x.val), p - q)
        else:
            s, m = vecn("s", 3), rigid("m")
            g.b[g.par(0)] = s
            g.b[g.par(1)] = m
            fx, fy, cx, cy = K(ctx, g)
            u, v, z = s.e
            w = apply(m, M(3, 1, [(u - cx) * z / fx, (v - cy) * z / fy, z]))
            for x in g.exits:
                A = g.alg()
                compare(ctx, g, x, "mm-screen", "signed distance to an observation is the difference to its world point",
                        lambda: A.ev(x.val), p - w)
    for fn in pick(ctx, "WorldCoordinate::get_signed_distance_2D_px"):
        g = Fx(ctx, fn)
        p, s, m = vecn("p", 3), vecn("s", 2), rigid("m")
        g.b[g.this()] = p
        g.b[g.par(0)] = s
        g.b[g.par(1)] = m
        fx, fy, cx, cy = K(ctx, g)
        c = apply(m, p).e
        w = M(2, 1, [s.e[0] - fx * c[0] / c[2] - cx, s.e[1] - fy * c[1] / c[2] - cy])
        n = 0
        for x in g.exits:
            A = g.alg()
            v = A.ev(x.val)
            if isinstance(v, M) and all(e.const() is not None or not deps_on(e, p) for e in v.e):
                continue    # the 'no projection' answer
            n += 1
            compare(ctx, g, x, "px", "signed pixel distance is the observation minus the projection",
                    lambda: A.ev(x.val), w)
        ctx.need(n, "pixel distance")
    for fn in pick(ctx, "WorldCoordinate::get_distance_mm") + pick(ctx, "WorldCoordinate::get_distance_px"):
        g = Fx(ctx, fn, DPolicy())
        n = 0
        ctx.item("%s/%d: the distance is the 1-norm of the signed distance" % (g.sid, len(fn.params)))
        for x in g.exits:
            ls = [s for s in subterms(x.val) if s.op == "call" and "lpNorm" in str(s.a[0])]
            if not ls:
                ls = [s for s in subterms(x.val) if s.op == "call" and str(s.a[0]).split("::")[-1].startswith(
                    ("norm", "squaredNorm", "stableNorm", "sum", "maxCoeff", "minCoeff"))]
                if ls and "sum" not in repr(ls[0]):
                    ctx.violation(g.sid + ":norm", where(fn, x.node), "the distance is not the 1-norm of the signed distance")
                continue
            n += 1
            if not any("lpNorm<1>" in str(s.a[0]) for s in ls) or ls[0] is not x.val:
                ctx.violation(g.sid + ":norm", where(fn, x.node), "the distance is not the 1-norm of the signed distance")
            elif not any("get_signed_distance" in str(s.a[0]) for s in subterms(ls[0]) if s.op == "call"):
                A = g.alg()


def deps_on(e, p):
    from algebra import deps
    ids = {a.id for y in p.e for a in y.atoms()}
    return bool(ids & set(a if isinstance(a, int) else a.id for a in deps(e)))


def visibility(ctx):
    for fn in pick(ctx, "is_in_screen_boundaries"):
        g = Fx(ctx, fn)
        d3 = shape_of(ctx.prog, fn.raw.get("clst") or fn.cls) == (3, 1)
        p, w, h = vecn("p", 3 if d3 else 2), sym("width"), sym("height")
        g.b[g.this()] = p
        g.b[mk("init", (("g", "rgbd_slam::Parameters::_camera1ImageSize"),))] = M(2, 1, [w, h])
        z = const(0)
        want = [ge(p.e[0], z), le(p.e[0], w), ge(p.e[1], z), le(p.e[1], h)] + ([gt(p.e[2], z)] if d3 else [])
        P = Pred(g)
        decide(ctx, g, None, "visible", "true exactly for 0 <= x <= width, 0 <= y <= height%s" % (
            " and z > 0" if d3 else ""), P.true(), And(*want))


def angles(ctx):
    for g in on(ctx, "utils::angle_distance"):
        a, b = sym("a"), sym("b")
        g.b[g.par(0)] = a
        g.b[g.par(1)] = b
        for x in g.exits:
            A = g.alg()
            d = a - b
            compare(ctx, g, x, "angle", "the angle distance is a - b wrapped to ]-pi, pi]", lambda: A.ev(x.val),
                    lambda: atan2(fn1("sin", d), fn1("cos", d)))
    for g in on(ctx, "utils::double_equal"):
        a, b, e = sym("a"), sym("b"), sym("eps")
        for i, v in enumerate((a, b, e)):
            g.b[g.par(i)] = v
        decide(ctx, g, None, "double_equal", "two numbers are equal when |a - b| <= epsilon", Pred(g).true(),
               le(absv(a - b), e))


from algebra import fn1  # noqa: E402
