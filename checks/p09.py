RULE = """
Plane coordinates of a point, their inverse, and every polygon operation that moves boundary points (construction, project,
transform, change of frame, screen points, world boundary) are rewritten to normal forms over a symbolic boundary point and
compared with their equations; the loops that build a boundary append exactly one such point per source point. Results carry
the axes and center asked for, and the path that delivers them has checked that the axes are unit and orthogonal. The stored
area is, on every path out of every operation that changes the shape, the area of the stored shape. Union and intersection
work on the two shapes brought to the same plane, select the largest part, and the ratio is that of their areas.
"""
from formula import *
from preds import *
from loops import *
from quat import rotation

POL = "utils::Polygon::"
GEO = ("get_plane_coordinate_system", "Polygon::project", "get_transformation_matrix", "transform_boundary", "is_valid",
       "geometry::correct", "compute_concave_hull", "compute_convex_hull")


def run(ctx):
    for f in (plane_coordinates, axes, constructors, constructor_points, projecting, transforming, frames, outlines,
              screen, areas, simplification, union_inter, ratio, merging, small, hulls):
        ctx.group(f)
    ctx.assume("Equality over the real numbers; the polygon algorithms (area, union, intersection, simplify, within, correct, "
               "concave hull) are Boost's and the bundled ones.")


class Pol(FPolicy):
    deny = DENY

    def __init__(self, *more):
        self.deny = DENY + tuple(more)


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def cross(a, b):
    a, b = a.e, b.e
    return M(3, 1, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def fields(ctx):
    return {"c": getter(ctx, POL + "get_center"), "x": getter(ctx, POL + "get_x_axis"), "y": getter(ctx, POL + "get_y_axis"),
            "area": getter(ctx, POL + "get_area"), "pol": ("_polygon",)}


def bindpol(g, D, at, name):
    """symbols for center and axes of the polygon at this or a parameter"""
    s = {}
    for k in "cxy":
        s[k] = vecn(name + k, 3)
        g.b[at(*D[k])] = s[k]
    return s


# ---- conditions on axes
def deq(r):
    """opaque condition: the quantity is 0 within rounding"""
    a, b = r.key(), r.scale(-1).key()
    return opaque(("deq",) + min((a, b), key=repr))


def unit(v):
    return deq(sqrt(norm2(v)) - const(1))


def orthogonal(a, b):
    return le(absv(dot(a, b)), const(.01))


def good(x, y):
    return And(unit(x), unit(y), orthogonal(x, y))


class AxPred(Pred):
    def __init__(self, fx):
        super().__init__(fx)
        self.hook = self.double_equal

    def double_equal(self, t):
        if t.op == "call" and callname(t) == "double_equal":
            args = [y for y in t.a[1:] if isinstance(y, T)]
            if len(args) > 2 and not (args[2].op == "call" and callname(args[2]) == "epsilon"):
                return None
            try:
                r = self.A.sc(args[0]) - self.A.sc(args[1])
            except Shape:
                return None
            if unknown_atoms(r):
                return None
            return deq(r)
        return None

    def facts(self, S):
        """what is known on every path to S"""
        if S.pc is not None:
            return self.pc(S.pc)
        return And(*[self.term(t) if pol else Not(self.term(t)) for t, pol in S.facts.items()])


def plane_coordinates(ctx):
    p, c, x, y = vecn("p", 3), vecn("c", 3), vecn("x", 3), vecn("y", 3)
    uv = vecn("u", 2)
    for fn in pick(ctx, "utils::get_projected_plan_coordinates"):
        g = Fx(ctx, fn)
        for i, v in enumerate((p, c, x, y)):
            g.b[g.par(i)] = v
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "coordinates", "plane coordinates are (x.(p - c), y.(p - c))", lambda: A.mat(e.val),
                    M(2, 1, [dot(x, p - c), dot(y, p - c)]))
        refusal(ctx, g, x, y)
    for fn in pick(ctx, "utils::get_point_from_plane_coordinates"):
        g = Fx(ctx, fn)
        for i, v in enumerate((uv, c, x, y)):
            g.b[g.par(i)] = v
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "point", "the point of plane coordinates (u, v) is c + u x + v y", lambda: A.mat(e.val),
                    c + x.map(lambda q: q * uv.e[0]) + y.map(lambda q: q * uv.e[1]))
        refusal(ctx, g, x, y)
    for fn in pick(ctx, "utils::double_equal"):
        g = Fx(ctx, fn, policy=Pol.__new__(Pol).free())
        a, b, e = sym("a"), sym("b"), sym("e")
        for i, v in enumerate((a, b, e)):
            g.b[g.par(i)] = v
        decide(ctx, g, None, "equal", "two numbers are equal exactly when they differ by at most epsilon", Pred(g).true(),
               le(absv(a - b), e), nan=True)


def _free(self):
    self.deny = tuple(d for d in DENY if d != "double_equal")
    return self


Pol.free = _free


def refusal(ctx, g, x, y, more=True):
    P = AxPred(g)
    decide(ctx, g, None, "refused", "axes are refused exactly when they are not unit and orthogonal", P.throws(),
           Not(And(good(x, y), more)))


def axes(ctx):
    """an orthonormal direct system around the normal"""
    for fn in pick(ctx, "utils::get_plane_coordinate_system"):
        g = Fx(ctx, fn, policy=Pol("select_correct_transform"))
        n = vecn("n", 3)
        g.b[g.par(0)] = n
        rs = {t for e in g.exits for t in subterms(e.val) if t.op == "call" and callname(t) == "select_correct_transform"}
        if len(rs) == 1:
            r = rs.pop()
            g.b[r] = vecn("r", 3)
            ctx.item(g.sid + ": the helper direction is chosen for the normal")
            if not mequal(g.alg().mat(r.a[-1]), n):
                ctx.violation(g.sid + ":helper", where(fn), "the helper direction is not chosen for the given normal")
        for e in g.exits:
            A = g.alg()
            try:
                x, y = A.mat(proj_path(e.val, ("first",))), A.mat(proj_path(e.val, ("second",)))
            except Shape as ex:
                undecided(ctx, g, str(ex))
                continue
            if unknown_atoms(x) or unknown_atoms(y):
                undecided(ctx, g, "axes")
                continue
            compare(ctx, g, e, "xn", "the x axis is orthogonal to the normal", lambda: dot(x, n), const(0))
            compare(ctx, g, e, "yn", "the y axis is orthogonal to the normal", lambda: dot(y, n), const(0))
            compare(ctx, g, e, "xy", "the axes are orthogonal", lambda: dot(x, y), const(0))
            compare(ctx, g, e, "unit-x", "the x axis is a unit vector", lambda: norm2(x), const(1))
            w = cross(n, x)
            compare(ctx, g, e, "direct", "the y axis is the normal times the x axis", lambda: y, lambda: normalized(w), [lambda: w])
            P = AxPred(g)
            P.A = A
            decide(ctx, g, e.node, "unit-normal", "only unit normals are accepted", P.facts(e.S), unit(n), mode="implies")


def constructors(ctx):
    D = fields(ctx)
    x, y, c = vecn("x", 3), vecn("y", 3), vecn("c", 3)
    for fn in pick(ctx, POL + "Polygon", lambda f: len(f.params) == 4):
        g = Fx(ctx, fn)
        for i, v in ((1, x), (2, y), (3, c)):
            g.b[g.par(i)] = v
        refusal(ctx, g, x, y)
        for e in g.exits:
            A = g.alg()
            for k, v in (("x", x), ("y", y), ("c", c)):
                compare(ctx, g, e, k, "a polygon has the axes and center it is built with (%s)" % k,
                        lambda: A.mat(self_read(e, D[k])), v)
            ctx.item(g.sid + ": the boundary is the given one")
            pol = self_read(e, D["pol"])
            if not any(t is g.par(0) for t in closure(g.E, (pol,))):
                if pol.op in ("dflt", "init"):
                    ctx.violation(g.sid + ":boundary", where(fn, e.node), "the boundary is not set")
                else:
                    undecided(ctx, g, "boundary")


def constructor_points(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "Polygon", lambda f: len(f.params) == 3 and "vector<" in f.params[0]["t"]):
        pol = Pol(*[d for d in GEO if d != "get_plane_coordinate_system"], "get_plane_coordinate_system")
        g = loops(ctx, fn, policy=pol)
        n, c = vecn("n", 3), vecn("c", 3)
        g.b[g.par(1)], g.b[g.par(2)] = n, c
        P = AxPred(g)
        done = 0
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "c", "the center is the given one", lambda: A.mat(self_read(e, D["c"])), c)
            xs, ys = self_read(e, D["x"]), self_read(e, D["y"])
            cs = xs.a[0] if xs.op == "fld" else None
            ctx.item(g.sid + ": the axes are those of the plane's coordinate system")
            if cs is None or cs.op != "call" or callname(cs) != "get_plane_coordinate_system":
                undecided(ctx, g, "axes")
                continue
            if xs is not proj_path(cs, ("first",)) or ys is not proj_path(cs, ("second",)) or not mequal(A.mat(cs.a[-1]), n):
                ctx.violation(g.sid + ":axes", where(fn, e.node), "the axes are not (x, y) of the given normal's system")
            x, y = vecn("x", 3), vecn("y", 3)
            g.b[xs], g.b[ys] = x, y
            A = g.alg()
            P = AxPred(g)
            ks = {t for t in closure(g.E, (self_read(e, D["pol"]),)) if t.op == "call" and callname(t) in ("compute_concave_hull", "compute_convex_hull")}
            if not ks:
                undecided(ctx, g, "hull")
            for t in ks:
                done += 1
                mapped(ctx, g, e, t.a[-1], "hull", "the hull is that of the points' plane coordinates",
                       lambda q: M(2, 1, [dot(x, q - c), dot(y, q - c)]), src=g.par(0), dim=3)
            decide(ctx, g, e.node, "unit-normal", "only unit normals are accepted", And(*[P.term(t) if pl else Not(P.term(t)) for t, pl in e.S.facts.items()]),
                   unit(n), mode="implies")
            area_of(ctx, g, e, D, "after construction", simplified=True)
        ctx.need(done, "hull of the points")


def mapped(ctx, g, e, t, key, what, image, src, dim, names=None):
    """obligation: the container t holds image(q) for each element q of the container src, and nothing else"""
    r = appended(g, t)
    if r is None:
        # an empty container
        return undecided(ctx, g, what + " (not built by one loop)")
    k, S, node, app, skip = r
    if skip or len(app) != 1:
        if skip and app:
            ctx.item(g.sid + ": " + what)
            # is the skipping condition understood?
            ctx.violation(g.sid + ":" + key + "-skipped", where(g.fn, node), what + ": some points are left out") if all(
                understood(g, pcs) for pcs in skip) else undecided(ctx, g, what + " (conditions)")
            return
        return undecided(ctx, g, what)
    args = app[0][0]
    els = elements(g, k, args)
    if len(els) != 1:
        return undecided(ctx, g, what + " (source)")
    (cont, d), acc = next(iter(els.items()))
    ctx.item(g.sid + ": " + what + " (source)")
    if cont is not src:
        if cont.op == "init" and src.op == "init":
            ctx.violation(g.sid + ":" + key + "-source", where(g.fn, node), "%s: the points are those of %s" % (what, showloc(cont.a[0])))
            return
        return undecided(ctx, g, what + " (source)")
    q = vecn("q", dim)
    if names:
        for i, nm in enumerate(names):
            g.b[element(acc, nm)] = q.e[i]
    elif dim == 3:
        g.b[element(acc)] = q
    else:
        for i in range(dim):
            g.b[element(acc, ("i", "at", num(i)))] = q.e[i]
    A = g.alg()
    A.bind.update(g.b)

    def got():
        if len(args) == 1:
            v = A.ev(args[0])
            return v
        return M(len(args), 1, [A.sc(a) for a in args])
    compare(ctx, g, e, key, what, got, lambda: image(q))


def understood(g, pcs):
    try:
        P = AxPred(g)
        return all(not strange(l, ()) for pc in pcs for l in leaves(P.pc(pc)))
    except Shape:
        return False


def outer(g, D, base=None):
    return mk("init", (base or (("o", "this"),)) + tuple(D["pol"]) + (("i", "outer"),))


def result_axes(ctx, g, e, D, v, want, what):
    A = g.alg()
    for k in "xyc":
        compare(ctx, g, e, k, "%s: the %s asked for" % (what, {"x": "x axis", "y": "y axis", "c": "center"}[k]),
                lambda: A.mat(proj_path(v, D[k])), want[k])


def boundary_of(g, v, D):
    """the container a polygon's boundary was assigned from"""
    t = proj_path(v, D["pol"])
    while t.op == "out" and str(t.a[0]).split("::")[-1] == "correct":
        t = t.a[2]
    if t.op == "out" and str(t.a[0]).split("::")[-1] == "assign_points":
        return t.a[-1]
    return None


def same_object(g, v):
    t = v
    while t.op == "agg" and not t.a[1]:
        t = t.a[0]
    return t is g.this()


def polygon_result(ctx, g, e, D, want, image, what):
    """the polygon delivered at exit e: unchanged (same plane), or moved"""
    v = e.val
    if same_object(g, v):
        ctx.item(g.sid + ": the polygon is returned as it is only for its own plane")
        A = g.alg()
        own = {k: A.mat(g.this(*D[k])) for k in "cxy"}
        close = [t for t, pl in e.S.facts.items() if pl and t.op == "call" and callname(t) == "isApprox"]
        for k in "cxy":
            if not any(mequal(A.mat(t.a[1]), own[k]) and mequal(A.mat(t.a[2]), want[k]) or
                       mequal(A.mat(t.a[2]), own[k]) and mequal(A.mat(t.a[1]), want[k]) for t in close):
                if not mequal(own[k], want[k]):
                    if len(close) == len([t for t, pl in e.S.facts.items() if pl and t.op == "call"]) and e.S.pc is not None or close:
                        ctx.violation(g.sid + ":same-" + k, where(g.fn, e.node), "the polygon is returned unmoved although its %s may differ" % k)
                    else:
                        undecided(ctx, g, "unmoved polygon")
        return
    result_axes(ctx, g, e, D, v, want, what)
    b = boundary_of(g, v, D)
    if b is None:
        return undecided(ctx, g, "boundary of the result")
    mapped(ctx, g, e, b, "moved", what + ": boundary points", image, src=outer(g, D), dim=2)
    P = AxPred(g)
    decide(ctx, g, e.node, "axes", what + ": the axes of the result are unit and orthogonal",
           And(*[P.term(t) if pl else Not(P.term(t)) for t, pl in e.S.facts.items()]), good(want["x"], want["y"]), mode="implies")


def lift(s, q):
    return s["c"] + s["x"].map(lambda v: v * q.e[0]) + s["y"].map(lambda v: v * q.e[1])


def drop(w, p):
    return M(2, 1, [dot(w["x"], p - w["c"]), dot(w["y"], p - w["c"])])


def projecting(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "project", lambda f: len(f.params) == 3):
        g = loops(ctx, fn)
        s = bindpol(g, D, g.this, "s")
        w = {"x": vecn("x", 3), "y": vecn("y", 3), "c": vecn("c", 3)}
        for i, k in enumerate("xyc"):
            g.b[g.par(i)] = w[k]
        for e in g.exits:
            polygon_result(ctx, g, e, D, w, lambda q: drop(w, lift(s, q)), "projection")
    for name in ("project", "transform"):
        for fn in pick(ctx, POL + name, lambda f: len(f.params) == 2):
            delegated(ctx, fn, name, D)
    for fn in pick(ctx, POL + "Polygon", lambda f: len(f.params) == 3 and "Polygon" in f.params[0]["t"]):
        g = Fx(ctx, fn, policy=Pol("Polygon::project"), distinct=True)
        for e in g.exits:
            ctx.item(g.sid + ": a polygon built from another on a plane is its projection")
            v = self_read(e, ())
            cs = [t for t in subterms(v) if t.op == "call" and callname(t) == "project"]
            if len(cs) != 1:
                undecided(ctx, g, "construction by projection")
                continue
            args = [a for a in cs[0].a[1:] if isinstance(a, T)]
            if args[0] is not g.par(0) or args[1] is not g.par(1) or args[2] is not g.par(2):
                ctx.violation(g.sid + ":projection", where(fn, e.node), "the polygon is not the other's projection on the given plane")


def delegated(ctx, fn, name, D):
    """project and transform on a normal: those on the axes of the normal's coordinate system"""
    g = Fx(ctx, fn, policy=TwoArg(name))
    n, c = vecn("n", 3), vecn("c", 3)
    g.b[g.par(0)], g.b[g.par(1)] = n, c
    P = AxPred(g)
    for e in g.exits:
        v = e.val
        ctx.item("%s(normal): same as on the axes of the normal's coordinate system" % g.sid)
        if same_object(g, v):
            ts = [t for t, pl in e.S.facts.items() if pl and t.op == "call" and callname(t) == "isApprox"]
            if len(ts) < 3:
                undecided(ctx, g, "unmoved polygon")
            continue
        if v.op != "call" or callname(v) != name:
            undecided(ctx, g, "delegation")
            continue
        args = [a for a in v.a[1:] if isinstance(a, T)]
        if len(args) != 4:
            undecided(ctx, g, "delegation")
            continue
        cs = args[1].a[0] if args[1].op == "fld" else None
        if cs is None or cs.op != "call" or callname(cs) != "get_plane_coordinate_system":
            undecided(ctx, g, "delegation")
            continue
        A = g.alg()
        if args[0] is not g.this() or args[1] is not proj_path(cs, ("first",)) or args[2] is not proj_path(cs, ("second",)) or \
                not mequal(A.mat(cs.a[-1]), n) or not mequal(A.mat(args[3]), c):
            ctx.violation("%s:normal" % g.sid, where(fn, e.node), "%s(normal, center) is not %s(x, y, center) of the normal's system" % (name, name))
        decide(ctx, g, e.node, "unit-normal", name + ": only unit normals are accepted", P.facts(e.S), unit(n), mode="implies")


class TwoArg(FPolicy):
    """the overload on axes is left opaque"""
    deny = DENY + ("get_plane_coordinate_system",)

    def __init__(self, name):
        self.name = name

    def inline(self, fn, *a):
        return not (fn.short.split("::")[-1] == self.name and len(fn.params) == 3)


def transforming(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "transform", lambda f: len(f.params) == 3):
        g = loops(ctx, fn, policy=Pol("get_transformation_matrix"))
        s = bindpol(g, D, g.this, "s")
        w = {"x": vecn("x", 3), "y": vecn("y", 3), "c": vecn("c", 3)}
        for i, k in enumerate("xyc"):
            g.b[g.par(i)] = w[k]
        T4 = rigid("t")
        ms = {t for key in g.ends for t in closure(g.E, [v for _, _, v in carried(g, key).values()]) if
              t.op == "call" and callname(t) == "get_transformation_matrix"}
        ms |= {t for e in g.exits for t in closure(g.E, (e.val,)) if t.op == "call" and callname(t) == "get_transformation_matrix"}
        if len(ms) != 1:
            undecided(ctx, g, "transformation matrix")
            continue
        m = ms.pop()
        A = g.alg()
        ctx.item(g.sid + ": the boundary moves with the transformation from this plane to the asked one")
        args = [a for a in m.a[1:] if isinstance(a, T)]
        for a, v, nme in zip(args, (s["x"], s["y"], s["c"], w["x"], w["y"], w["c"]), ("x", "y", "center", "next x", "next y", "next center")):
            compare(ctx, g, None, "matrix-" + nme.replace(" ", "-"), "the transformation goes from this plane to the asked one (%s)" % nme,
                    lambda: A.mat(a), v)
        g.b[m] = T4
        for e in g.exits:
            polygon_result(ctx, g, e, D, w, lambda q: drop(w, apply(T4, lift(s, q))), "transformation")
    for fn in pick(ctx, "rgbd_slam::get_transformation_matrix", lambda f: len(f.params) == 6):
        g = Fx(ctx, fn)
        v = [vecn(k, 3) for k in ("xf", "yf", "cf", "xt", "yt", "ct")]
        for i, q in enumerate(v):
            g.b[g.par(i)] = q
        P = AxPred(g)
        decide(ctx, g, None, "refused", "frames are refused exactly when their axes are not unit and orthogonal", P.throws(),
               Not(And(good(v[0], v[1]), good(v[3], v[4]))))
        a, b = rotation([sym('a' + k) for k in 'wxyz']), rotation([sym('b' + k) for k in 'wxyz'])  # any two rotations
        for i, q in ((0, a.block(0, 0, 3, 1)), (1, a.block(0, 1, 3, 1)), (3, b.block(0, 0, 3, 1)), (4, b.block(0, 1, 3, 1))):
            g.b[g.par(i)] = q
        for e in g.exits:
            A = g.alg()

            def hook(t):
                # the rotation of an orthonormal linear part is that part
                if t.op == "call" and callname(t) == "rotation" and len(t.a) == 2:
                    m = A.mat(t.a[1])
                    return m.block(0, 0, 3, 3) if m.r == 4 else None
                if t.op == "call" and callname(t) == "inverse" and len(t.a) == 2:
                    m = A.mat(t.a[1])
                    if m.r == 3 and mequal(m.mul(m.T()), identity(3)):
                        return m.T()
                return None
            A.hook = hook
            compare(ctx, g, e, "rotation", "the rotation takes the first frame's axes to the second's", lambda: A.mat(e.val).block(0, 0, 3, 3),
                    lambda: b.mul(a.T()))
            compare(ctx, g, e, "translation", "the translation is that between the centers", lambda: A.mat(e.val).block(0, 3, 3, 1), v[5] - v[2])
            compare(ctx, g, e, "bottom", "the last row is 0 0 0 1", lambda: A.mat(e.val).block(3, 0, 1, 4),
                    M(1, 4, [const(0), const(0), const(0), const(1)]))




def frames(ctx):
    D = fields(ctx)
    for sfx in ("CameraPolygon::to_world_space", "WorldPolygon::to_camera_space"):
        for fn in pick(ctx, sfx):
            g = loops(ctx, fn)
            s = bindpol(g, D, g.this, "s")
            T4 = rigid("t")
            g.b[g.par(0)] = T4
            R3 = T4.block(0, 0, 3, 3)
            w = {"x": normalized(R3.mul(s["x"])), "y": normalized(R3.mul(s["y"])), "c": apply(T4, s["c"])}
            for e in g.exits:
                polygon_result(ctx, g, e, D, w, lambda q: drop(w, apply(T4, lift(s, q))), "change of frame")


def outlines(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "get_unprojected_boundary"):
        g = loops(ctx, fn)
        s = bindpol(g, D, g.this, "s")
        for e in g.exits:
            mapped(ctx, g, e, e.val, "outline", "the world boundary holds c + u x + v y for each boundary point", lambda q: lift(s, q),
                   src=outer(g, D), dim=2)


def screen(ctx):
    D = fields(ctx)
    for fn in pick(ctx, "CameraPolygon::get_screen_points"):
        g = loops(ctx, fn)
        s = bindpol(g, D, g.this, "s")
        f0, f1, c0, c1 = intrinsics(g)
        for e in g.exits:
            if empty(e.val):
                continue

            def image(q):
                p = lift(s, q).e
                return M(3, 1, [f0 * p[0] / p[2] + c0, f1 * p[1] / p[2] + c1, p[2]])
            mapped(ctx, g, e, e.val, "screen", "screen points are the projections of the boundary points", image, src=outer(g, D), dim=2)
    for fn in pick(ctx, "CameraPolygon::is_visible_in_screen_space"):
        g = Fx(ctx, fn, policy=Pol("to_screen_space", "get_static_screen_boundary_polygon"))
        for e in g.exits:
            ctx.item(g.sid + ": visible exactly when the screen shape meets the screen")
            t = e.val
            neg = False
            while t.op == "not":
                t, neg = t.a[0], not neg
            o = t.a[-1] if t.op == "call" and callname(t) == "empty" else None
            if o is None or o.op != "out" or callname(o) != "intersection":
                undecided(ctx, g, "visibility")
                continue
            names = {callname(y) for y in o.a[2:] if isinstance(y, T) and y.op == "call"}
            if not neg:
                ctx.violation(g.sid + ":sense", where(fn, e.node), "visible when the intersection is empty")
            if not {"to_screen_space", "get_static_screen_boundary_polygon"} <= names:
                undecided(ctx, g, "shapes compared")


# ---- areas
def area_call(t):
    return t.a[-1] if t.op == "call" and callname(t) == "area" else None


def boundary_few(S, ch, pol, g):
    """the shape is known to have fewer than 3 boundary points"""
    for t, pl in S.facts.items():
        if few(t, pl, pol):
            return True
    return False


def few(t, pl, pol):
    o = proj_path(pol, (("i", "outer"),))
    if t.op in ("<", "<=") and pl and cval(t.a[1]) is not None:
        if t.a[0].op == "call" and callname(t.a[0]) == "size" and t.a[0].a[-1] is o:
            return (cval(t.a[1]) <= 3) if t.op == "<" else cval(t.a[1]) <= 2
    if t.op in ("<", "<=") and not pl and cval(t.a[0]) is not None:
        # not (k <= size) or not (k < size)
        if t.a[1].op == "call" and callname(t.a[1]) == "size" and t.a[1].a[-1] is o:
            return cval(t.a[0]) <= 3 if t.op == "<=" else cval(t.a[0]) <= 2
    if t.op == "call" and callname(t) == "empty" and pl and t.a[-1] is o:
        return True
    return False


def area_of(ctx, g, e, D, what, simplified=False):
    """the stored area is that of the stored shape"""
    ar, pol = self_read(e, D["area"]), self_read(e, D["pol"])
    ctx.item("%s: the stored area is the area of the stored shape %s" % (g.sid, what))
    try:
        cs = cases(g, e.S, [ar, pol])
    except Shape:
        return undecided(ctx, g, "stored area")
    for ch, (a, p), pcs in cs:
        if area_call(a) is p:
            continue
        if cval(a) == 0 and cval(a) is not None:
            conds = [c for pc in pcs if pc for c in [frozenset.intersection(*pc)]] + [frozenset(e.S.facts.items())]
            if any(few(deep(g.E, t, ch), pl, p) for c in conds for t, pl in c):
                continue
        if simplified and a.op in ("out", "mod") and p.op in ("out", "mod"):
            continue        # both written by simplify, analysed by itself
        if simplified and "simplify" in repr(a)[:200]:
            continue
        src = area_call(a)
        if src is not None or cval(a) is not None or a.op == "init":
            ctx.violation("%s:area" % g.sid, where(g.fn, e.node), "the stored area (%s) is not that of the stored shape" % repr(a)[:120])
        else:
            undecided(ctx, g, "stored area %s" % repr(a)[:60])


def areas(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "area"):
        g = Fx(ctx, fn)
        for e in g.exits:
            ctx.item(g.sid + ": the area is that of the shape")
            for ch, (t,), pcs in cases(g, e.S, [e.val]):
                if area_call(t) is g.this(*D["pol"]):
                    continue
                if cval(t) == 0 and cval(t) is not None and boundary_few(e.S, ch, g.this(*D["pol"]), g):
                    continue
                if cval(t) is not None:
                    ctx.violation(g.sid + ":value", where(fn, e.node), "the area is given as %s although the shape has an area" % cval(t))
                else:
                    undecided(ctx, g, "area")
    for fn in pick(ctx, POL + "Polygon", lambda f: len(f.params) == 4):
        g = Fx(ctx, fn)
        for e in g.exits:
            area_of(ctx, g, e, D, "after construction")
    for fn in pick(ctx, POL + "simplify"):
        g = Fx(ctx, fn)
        for e in g.exits:
            area_of(ctx, g, e, D, "after simplification")
    # every operation that writes the shape ends with a stored area that belongs to it
    for fn in pick(ctx, POL + "merge_union"):
        g = Fx(ctx, fn, policy=Pol("Polygon::project", "Polygon::union_one"), distinct=True)
        for e in g.exits:
            if self_read(e, D["pol"]) is g.this(*D["pol"]):
                ctx.item(g.sid + ": nothing changes without a merged shape")
                if self_read(e, D["area"]) is not g.this(*D["area"]) and area_call(self_read(e, D["area"])) is not g.this(*D["pol"]):
                    ctx.violation(g.sid + ":area", where(fn, e.node), "the stored area changes although the shape does not")
                continue
            area_of(ctx, g, e, D, "after a merge")


def simplification(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "simplify"):
        g = Fx(ctx, fn)
        P = Pred(g)
        a0, a1 = sym("a0"), sym("a1")
        me = g.this(*D["pol"])
        for e in g.exits:
            for ch, (p,), pcs in cases(g, e.S, [self_read(e, D["pol"])]):
                ctx.item(g.sid + ": a simplified shape is valid and keeps three quarters of the area")
                if p is me:
                    continue
                if p.op != "out" or callname(p) != "simplify" or p.a[2] is not me:
                    if p.op == "out" and callname(p) == "simplify":
                        ctx.violation(g.sid + ":what", where(fn, e.node), "what is simplified is not the stored shape")
                    else:
                        undecided(ctx, g, "simplified shape")
                    continue
                V = opaque("valid")
                P = Pred(g)

                def quantity(t):
                    a = area_call(t)
                    if a is not None:
                        return a0 if a is me else a1 if a.op == "out" and callname(a) == "simplify" and a.a[2] is me else None
                    if t.op == "call" and callname(t) == "size":
                        return sym("size")
                    return None

                def valid(t):
                    if t.op == "call" and callname(t) == "is_valid" and t.a[1].op == "out" and callname(t.a[1]) == "simplify":
                        return V
                    return None
                P.A.hook, P.hook = quantity, valid
                few_ = lt(sym("size"), const(3))
                cond = And(*[P.pc(pc) for pc in pcs]) if pcs else P.facts(e.S) if hasattr(P, "facts") else And(
                    *[P.term(t) if pl else Not(P.term(t)) for t, pl in e.S.facts.items()])
                decide(ctx, g, e.node, "kept", "a simplified shape is kept only if it is valid and has more than three quarters of the area",
                       And(cond, Not(few_)), And(V, gt(a1, a0.scale(Fraction(3, 4)))), mode="implies")


# ---- set operations
def brought(g, t, D):
    """t is the other polygon's shape brought to this polygon's plane"""
    if t is None or t.op != "fld" or t.a[1] != D["pol"][0]:
        return None
    c = t.a[0]
    if c.op != "call" or callname(c) != "project":
        return None
    args = [a for a in c.a[1:] if isinstance(a, T)]
    return len(args) == 4 and args[0] is g.par(0) and args[1] is g.this(*D["x"]) and args[2] is g.this(*D["y"]) and args[3] is g.this(*D["c"])


def overlay(ctx, g, e, D, op, terms):
    """the multi polygon op(this shape, other shape brought to this plane)"""
    rs = {t for t in closure(g.E, terms) if t.op == "out" and callname(t) in ("union_", "intersection")}
    ctx.item("%s: on this shape and the other one brought to its plane" % g.sid)
    if len(rs) != 1:
        undecided(ctx, g, "overlay")
        return None
    r = rs.pop()
    if callname(r) != op:
        ctx.violation(g.sid + ":operation", where(g.fn, e.node), "the shapes are combined by %s" % callname(r))
        return None
    a, b = r.a[2], r.a[3]
    me = g.this(*D["pol"])
    if b is me:
        a, b = b, a
    k = brought(g, b, D)
    if a is not me or k is False or (k is None and b.op == "init"):
        if a.op in ("init", "fld") and b.op in ("init", "fld"):
            ctx.violation(g.sid + ":operands", where(g.fn, e.node), "the shapes combined are not this one and the other in this plane")
        else:
            undecided(ctx, g, "operands")
    elif k is None:
        undecided(ctx, g, "operands")
    return r


def union_inter(ctx):
    D = fields(ctx)
    for name, op in (("union_area", "union_"), ("inter_area", "intersection")):
        for fn in pick(ctx, POL + name):
            g = loops(ctx, fn, policy=Pol("Polygon::project"))
            for e in g.exits:
                v = e.val
                if cval(v) is not None:
                    ctx.item(g.sid + ": a constant answer only for a failed operation")
                    if cval(v) != 0 or not any(t.op == "call" and callname(t) in ("intersection", "union_") and not pl for t, pl in e.S.facts.items()):
                        ctx.violation(g.sid + ":constant", where(fn, e.node), "the area is given as %s" % cval(v))
                    continue
                if v.op != "phi" or v.a[0] not in g.ends:
                    undecided(ctx, g, "sum of areas")
                    continue
                key = v.a[0]
                S, F, node = g.ends[key]
                h, first, _ = carried(g, key)[v.a[1]]
                g.b[h] = sym("h")
                end = S.read(v.a[1])
                r = overlay(ctx, g, e, D, op, (end,))
                ars = {t for t in subterms(end) if area_call(t) is not None}
                if r is None or len(ars) != 1:
                    undecided(ctx, g, "sum of areas")
                    continue
                ar = ars.pop()
                els = elements(g, key, [ar])
                if len(els) != 1 or list(els)[0][0] is not r:
                    undecided(ctx, g, "parts summed")
                    continue
                g.b[ar] = sym("part")
                A = g.alg()
                compare(ctx, g, e, "sum0", "the sum of the parts starts at 0", lambda: A.sc(first), const(0))
                compare(ctx, g, e, "sum", "each part adds its area", lambda: A.sc(end), sym("h") + sym("part"))
    for name, op in (("union_one", "union_"), ("inter_one", "intersection")):
        for fn in pick(ctx, POL + name):
            g = loops(ctx, fn, policy=Pol("Polygon::project"))
            for e in g.exits:
                largest(ctx, g, e, D, op)


def largest(ctx, g, e, D, op):
    v = e.val
    if v.op == "dflt" or v.op == "new" and len(v.a) == 1:
        ctx.item(g.sid + ": an empty shape only when there is no part")
        if not any(t.op == "call" and callname(t) == "empty" and pl or t.op in ("==", "<", "<=") and "size" in repr(t)[:400] for t, pl in e.S.facts.items()):
            ctx.violation(g.sid + ":empty", where(g.fn, e.node), "an empty shape is returned although there may be parts")
        return
    r = overlay(ctx, g, e, D, op, (v,) + tuple(e.S.facts))
    if r is None:
        return
    if v.op == "fld" and v.a[0] is r and v.a[1][1] in ("front", "at", "back"):
        ctx.item(g.sid + ": a part is returned without comparison only when it is the only one")
        P = Pred(g)
        n = sym("parts")

        def size(t):
            return n if t.op == "call" and callname(t) == "size" and t.a[-1] is r else None

        def none(t):
            return eq(n, const(0)) if t.op == "call" and callname(t) == "empty" and t.a[-1] is r else None
        P.A.hook, P.hook = size, none
        decide(ctx, g, e.node, "first", "a part is returned without comparison only when it is the only one",
               And(*[P.term(t) if pl else Not(P.term(t)) for t, pl in e.S.facts.items()]), eq(n, const(1)), mode="implies", integral=True,
               side=ge(n, const(1)))
        return
    if v.op != "phi" or v.a[0] not in g.ends:
        return undecided(ctx, g, "largest part")
    key = v.a[0]
    S, F, node = g.ends[key]
    car = carried(g, key)
    end = S.read(v.a[1])
    # the largest area so far: a carried value updated with the area of the part
    best = [loc for loc, (h, first, nx) in car.items() if loc != v.a[1] and cval(first) is not None and
            any(area_call(t) is not None for t in closure(g.E, (S.read(loc),))) and S.read(loc).op == "phi"]
    if not best:
        # no area is remembered: may a part be selected after a larger one?
        P = Pred(g)
        P.A.hook = lambda t: sym("part") if area_call(t) is not None else None
        for ch, (p,), pcs in cases(g, S, [end]):
            if p is not v:
                decide(ctx, g, node, "largest", "a part is selected only when it is larger than those before", And(*[P.pc(pc) for pc in pcs]),
                       gt(sym("part"), sym("best")), mode="implies")
        return
    if len(best) != 1:
        return undecided(ctx, g, "largest area")
    h, first, _ = car[best[0]]
    ctx.item(g.sid + ": any part with an area can be selected")
    if cval(first) > 0:
        ctx.violation(g.sid + ":start", where(g.fn, node), "parts smaller than %s are never selected" % cval(first))
    P = Pred(g)
    H, AR = sym("best"), sym("part")
    P.A.bind[h] = H
    take = []
    for ch, (a, p), pcs in cases(g, S, [S.read(best[0]), end]):
        for t in closure(g.E, [y for pc in pcs if pc for c in pc for y, _ in c] + [a]):
            if area_call(t) is not None:
                P.A.bind[t] = AR
        ctx.item(g.sid + ": area and shape of the largest part are kept together")
        if a is h and p is v:
            continue
        if area_call(a) is None or (p is v) or a is h:
            if a is h or p is v:
                ctx.violation(g.sid + ":pair", where(g.fn, node), "the largest area and the selected part are not updated together")
            else:
                undecided(ctx, g, "largest part")
            return
        x, y = area_call(a), p
        if x is not y and not (x.op == "fld" and y.op == "fld" and x.a[1] == y.a[1]):
            ctx.violation(g.sid + ":pair", where(g.fn, node), "the area kept is not that of the part kept")
        take.append(And(*[P.pc(pc) for pc in pcs]))
    decide(ctx, g, node, "largest", "a part is selected exactly when it is larger than those before", Or(*take), gt(AR, H),
           mode="implies")
    decide(ctx, g, node, "largest-all", "a larger part is always selected", Or(*take), gt(AR, H), mode="covers")


def ratio(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "inter_over_union"):
        g = Fx(ctx, fn, policy=Pol("Polygon::project", "Polygon::union_one", "Polygon::inter_one"))
        ts = closure(g.E, [e.val for e in g.exits] + [t for e in g.exits for t in e.S.facts])
        U = [t for t in ts if area_call(t) is not None and area_call(t).op == "call" and callname(area_call(t)) == "union_one"]
        I = [t for t in ts if area_call(t) is not None and area_call(t).op == "call" and callname(area_call(t)) == "inter_one"]
        if len(U) != 1 or len(I) != 1:
            undecided(ctx, g, "areas compared")
            continue
        for t in U + I:
            ctx.item(g.sid + ": union and intersection are those of this polygon and the other")
            a = [y for y in area_call(t).a[1:] if isinstance(y, T)]
            o = a[1]
            if a[0] is not g.this() or not (o is g.par(0) or o.op == "call" and callname(o) == "project" and o.a[1] is g.par(0)):
                ctx.violation(g.sid + ":operands", where(fn), "the ratio is not that of this polygon and the other")
        u, i = sym("union"), sym("inter")
        g.b[U[0]], g.b[I[0]] = u, i
        for t in ts:
            if t.op == "call" and callname(t) == "size":
                g.b[t] = sym("size")
        P = Pred(g)
        z, q = [], []
        for e in g.exits:
            A = g.alg()
            for ch, (t,), pcs in cases(g, e.S, [e.val]):
                v = A.sc(t)
                c = And(P.reach(e), *[P.pc(pc) for pc in pcs])
                if equal(v, const(0)):
                    z.append(c)
                elif equal(v, i / u):
                    q.append(c)
                elif unknown_atoms(v):
                    return undecided(ctx, g, "ratio")
                else:
                    ctx.violation(g.sid + ":value", where(fn, e.node), "the ratio is %r, not intersection over union" % v)
        ctx.item(g.sid + ": the ratio is intersection over union")
        n = ge(sym("size"), const(3))
        ok = And(gt(u, const(0)), gt(i, const(0)), n)
        decide(ctx, g, None, "ratio", "the ratio is given whenever both areas are positive", Or(*q), ok, mode="covers")
        decide(ctx, g, None, "zero", "the ratio is 0 when an area is not positive", Or(*q), And(gt(u, const(0)), gt(i, const(0))), mode="implies")


def merging(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "merge_union"):
        g = Fx(ctx, fn, policy=Pol("Polygon::project", "Polygon::union_one"), distinct=True)
        for e in g.exits:
            for k in "cxy":
                ctx.item(g.sid + ": a merge keeps the plane (%s)" % k)
                v = self_read(e, D[k])
                if v is not g.this(*D[k]):
                    ctx.violation(g.sid + ":plane-" + k, where(fn, e.node), "a merge changes the polygon's plane")
            us = {t for t in closure(g.E, [self_read(e, D["pol"])] + list(e.S.facts)) if t.op == "call" and callname(t) == "union_one"}
            ctx.item(g.sid + ": the merged shape is the union of this and the other in this plane")
            if len(us) != 1:
                undecided(ctx, g, "union")
                continue
            a = [y for y in us.pop().a[1:] if isinstance(y, T)]
            if a[0] is not g.this():
                ctx.violation(g.sid + ":union", where(fn, e.node), "the union is not with this polygon")
            elif a[1] is not g.par(0):
                c = a[1]
                args = [y for y in c.a[1:] if isinstance(y, T)] if c.op == "call" and callname(c) == "project" else []
                if not args:
                    undecided(ctx, g, "union")
                elif args[0] is not g.par(0) or [args[1], args[2], args[3]] != [g.this(*D[k]) for k in "xyc"]:
                    ctx.violation(g.sid + ":union", where(fn, e.node), "the union is not with the other polygon in this plane")


def small(ctx):
    D = fields(ctx)
    for fn in pick(ctx, POL + "get_normal"):
        g = Fx(ctx, fn)
        s = bindpol(g, D, g.this, "s")
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "normal", "the normal is x cross y", lambda: A.mat(e.val), cross(s["x"], s["y"]))
    for fn in pick(ctx, POL + "boundary_length"):
        g = Fx(ctx, fn)
        P = Pred(g)
        n = sym("n")
        for e in g.exits:
            for t in closure(g.E, [e.val] + list(e.S.facts)):
                if t.op == "call" and callname(t) == "size":
                    g.b[t] = n
        P = Pred(g)
        for e in g.exits:
            for ch, (t,), pcs in cases(g, e.S, [e.val]):
                v = P.A.sc(t)
                c = And(P.reach(e), *[P.pc(pc) for pc in pcs])
                ctx.item(g.sid + ": number of edges")
                want = eq(n, const(0)) if equal(v, const(0)) else ge(n, const(1)) if equal(v, n - const(1)) else None
                if want is None:
                    if unknown_atoms(v):
                        undecided(ctx, g, "length")
                    else:
                        ctx.violation(g.sid + ":length", where(fn, e.node), "the number of edges is given as %r of %r points" % (v, n))
                    continue
                decide(ctx, g, e.node, "length", "the number of edges is one less than the (closed) boundary's points", c, want, mode="implies",
                       side=ge(n, const(0)), integral=True)
    for fn in pick(ctx, POL + "contains"):
        g = Fx(ctx, fn)
        for e in g.exits:
            ctx.item(g.sid + ": contains answers for the given point and this shape")
            t = e.val
            if t.op != "call" or callname(t) != "within":
                undecided(ctx, g, "contains")
                continue
            if t.a[2] is not g.this(*D["pol"]):
                ctx.violation(g.sid + ":shape", where(fn, e.node), "another shape is tested")
            mkp = t.a[1]
            xs = [y for y in mkp.a[1:] if isinstance(y, T)] if mkp.op in ("call", "new", "vec", "agg") else []
            if len(xs) >= 2:
                A = g.alg()
                q = vecn("q", 2)
                A.bind[g.par(0)] = q
                try:
                    got = [A.sc(xs[0]), A.sc(xs[1])]
                except Shape:
                    undecided(ctx, g, "tested point")
                    continue
                if not (equal(got[0], q.e[0]) and equal(got[1], q.e[1])) and not any(unknown_atoms(v) for v in got):
                    ctx.violation(g.sid + ":point", where(fn, e.node), "the point tested is %r" % got)


def hulls(ctx):
    """the points handed to the hull algorithms are the given ones"""
    for name in ("compute_convex_hull", "compute_concave_hull"):
        for fn in pick(ctx, POL + name):
            g = loops(ctx, fn, policy=Pol("polygon::compute_concave_hull", "compute_concave_hull"))
            for e in g.exits:
                hs = {t for t in closure(g.E, (e.val,) + tuple(e.S.facts)) if t.op in ("out", "call") and callname(t) in ("convex_hull", "compute_concave_hull")}
                srcs = {y for t in hs for y in t.a[1:2 if t.op == "call" else None] if isinstance(y, T) and y.op in ("phi", "agg", "upd")}
                for t in srcs:
                    mapped(ctx, g, e, t, "points", "the hull is that of the given points", lambda q: q, src=g.par(0), dim=2)
                if callname(e.val) == "assign_points" if e.val.op == "out" else False:
                    outs = {t for t in hs if t.op == "out"}
                    if len(outs) != 1:
                        undecided(ctx, g, "boundary of the hull")
                        continue
                    mapped(ctx, g, e, e.val.a[-1], "boundary", "the shape holds the hull's points", lambda q: q, src=outs.pop(), dim=2, names="xy")
