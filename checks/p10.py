RULE = """
Quaternion valued value numbers are rewritten to four normal forms, compared up to a factor (half angles and interpolations
are shared atoms). The prediction of the motion model must be, on every path, the current pose moved by the mean of the last
displacement and the last velocity, in the same frame in which the angular velocity was measured; the state it keeps and the
variance it adds are compared with their equations. Poses keep what they are given, their orientation stays of unit length
through every operation. Euler angles and quaternions are the same product of elementary rotations, and the axes correction
between camera and world is evaluated to its matrix.
"""
import math
from formula import *
from preds import *
from loops import *
from quat import *

PB = "utils::PoseBase::"
PO = "utils::Pose::"
MM = "tracking::Motion_Model::"


def run(ctx):
    for f in (poses, pose_errors, model_reset, model_first, model_next, euler, camera_axes):
        ctx.group(f)
    ctx.assume("Real arithmetic; Eigen's slerp, toRotationMatrix, angularDistance and EulerAngles compute what they are documented to.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def qsym(n):
    return [sym(n + k) for k in "wxyz"]


def fields(ctx):
    return {"p": getter(ctx, PB + "get_position"), "q": getter(ctx, PB + "get_orientation_quaternion"),
            "v": getter(ctx, PO + "get_pose_variance")}


def qcompare(ctx, g, e, Q, key, what, t, want):
    """obligation: the quaternion t is the rotation want"""
    ctx.item("%s: %s" % (g.sid, what))
    try:
        cs = cases(g, e.S, [t])
    except Shape:
        return undecided(ctx, g, what)
    for ch, (x,), pcs in cs:
        try:
            q = Q.ev(x)
        except (NoQuat, Shape):
            undecided(ctx, g, what)
            continue
        if any(unknown_atoms(c) for c in q):
            undecided(ctx, g, what)
        elif not same(q, want()):
            ctx.violation("%s:%s" % (g.sid, key), where(g.fn, e.node), what + ": another rotation is computed")


def unit(g, t, ok):
    """True: of unit length; False: not always; None: unknown"""
    if t.op == "call":
        n = str(t.a[0]).split("::")[-1].split("<")[0]
        if n in ("normalized", "Identity", "slerp", "UnitRandom", "FromTwoVectors"):
            return True
        if n in ("inverse", "conjugate"):
            return unit(g, t.a[1], ok)
    if t.op == "mod":
        return True if t.a[0] in ("normalize", "setIdentity") else None
    if t.op == "*" and len(t.a) == 2:
        a, b = unit(g, t.a[0], ok), unit(g, t.a[1], ok)
        return True if a and b else False if (a is False or b is False) and None not in (a, b) else None
    if t.op == "new" and "AngleAxis" in str(t.a[0]):
        return True
    if t.op == "init":
        return True if t in ok else False
    if t.op == "phi" and t in g.E.cond:
        rs = [unit(g, x, ok) for x in g.E.cond[t]]
        return True if all(rs) else False if False in rs else None
    return None


def stays_unit(ctx, g, e, t, ok, key="unit"):
    ctx.item("%s: the orientation kept is of unit length" % g.sid)
    u = unit(g, t, ok)
    if u is False:
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, e.node), "the orientation kept is not of unit length for every argument")
    elif u is None:
        undecided(ctx, g, "unit orientation")


def setup(g, D, pose=None):
    Q = Quat(g.alg())
    return Q


def poses(ctx):
    D = fields(ctx)
    p, q, v = vecn("p", 3), qsym("q"), matn("v", 6, 6)
    todo = [(f, None) for f in pick(ctx, PB + "PoseBase", lambda f: len(f.params) == 2)] + \
        [(f, None) for f in pick(ctx, PB + "set_parameters")] + \
        [(f, "v") for f in pick(ctx, PO + "Pose", lambda f: len(f.params) in (2, 3))]
    for fn, var in todo:
        g = Fx(ctx, fn)
        g.b[g.par(0)] = p
        for e in g.exits:
            Q = Quat(g.alg())
            Q.bind[g.par(1)] = q
            compare(ctx, g, e, "position", "a pose has the position it is given", lambda: Q.A.mat(self_read(e, D["p"])), p)
            qcompare(ctx, g, e, Q, "orientation", "a pose has the orientation it is given", self_read(e, D["q"]), lambda: q)
            stays_unit(ctx, g, e, self_read(e, D["q"]), ())
            if var:
                if len(fn.params) == 3:
                    Q.A.bind[g.par(2)] = v
                compare(ctx, g, e, "variance", "a pose has the variance it is given (none: zero)", lambda: Q.A.mat(self_read(e, D["v"])),
                        v if len(fn.params) == 3 else zeros(6, 6))
    for fn in pick(ctx, PB + "PoseBase", lambda f: not f.params) + pick(ctx, PO + "Pose", lambda f: not f.params):
        g = Fx(ctx, fn)
        for e in g.exits:
            Q = Quat(g.alg())
            compare(ctx, g, e, "position", "the default pose is at the origin", lambda: Q.A.mat(self_read(e, D["p"])), zeros(3, 1))
            qcompare(ctx, g, e, Q, "orientation", "the default pose is not rotated", self_read(e, D["q"]),
                     lambda: [const(1), const(0), const(0), const(0)])
    for fn in pick(ctx, PB + "update"):
        g = Fx(ctx, fn)
        s, t = vecn("s", 3), qsym("t")
        g.b[g.par(0)], g.b[g.this(*D["p"])] = p, s
        for e in g.exits:
            Q = Quat(g.alg())
            Q.bind[g.par(1)], Q.bind[g.this(*D["q"])] = q, t
            compare(ctx, g, e, "position", "an update adds the displacement", lambda: Q.A.mat(self_read(e, D["p"])), s + p)
            qcompare(ctx, g, e, Q, "orientation", "an update turns by the given rotation", self_read(e, D["q"]), lambda: qmul(t, q))
            stays_unit(ctx, g, e, self_read(e, D["q"]), (g.this(*D["q"]),))
    for fn in pick(ctx, PO + "set_position_variance"):
        g = Fx(ctx, fn)
        g.b[g.par(0)] = v
        for e in g.exits:
            compare(ctx, g, e, "variance", "the variance is the given one", lambda: g.alg().mat(self_read(e, D["v"])), v)
    for fn in pick(ctx, PO + "get_position_variance"):
        g = Fx(ctx, fn)
        g.b[g.this(*D["v"])] = v
        for e in g.exits:
            compare(ctx, g, e, "block", "the position variance is the first 3x3 block", lambda: g.alg().mat(e.val), v.block(0, 0, 3, 3))
    for fn in pick(ctx, PB + "get_orientation_matrix"):
        g = Fx(ctx, fn)
        for e in g.exits:
            ctx.item(g.sid + ": the matrix is that of the orientation")
            t = e.val
            if t.op == "call" and str(t.a[0]).endswith("toRotationMatrix"):
                Q = Quat(g.alg())
                Q.bind[g.this(*D["q"])] = q
                qcompare(ctx, g, e, Q, "matrix", "the rotation matrix is that of the orientation", t.a[1], lambda: q)
            else:
                undecided(ctx, g, "orientation matrix")
    for fn in pick(ctx, PB + "get_vector"):
        g = Fx(ctx, fn)
        g.b[g.this(*D["p"])] = p
        for e in g.exits:
            A = g.alg()
            a = vecn("a", 3)
            ts = {t for t in subterms(e.val) if t.op == "call" and str(t.a[0]).endswith("eulerAngles")}
            for t in ts:
                ctx.item(g.sid + ": angles around x, y, z of the orientation")
                src = [y for y in subterms(t.a[1]) if y is g.this(*D["q"])]
                ix = [cval(y) for y in t.a[2:5]]
                if not src or ix != [0, 1, 2]:
                    ctx.violation(g.sid + ":angles", where(fn, e.node), "the angles are not those of the orientation around x, y, z")
                A.bind[t] = a
            if not ts:
                undecided(ctx, g, "pose vector")
                continue
            compare(ctx, g, e, "vector", "the pose vector is position then angles", lambda: A.mat(e.val), M(6, 1, p.e + a.e))


def pose_errors(ctx):
    D = fields(ctx)
    p, s = vecn("p", 3), vecn("s", 3)
    for fn in pick(ctx, PB + "get_position_error"):
        g = Fx(ctx, fn)
        g.b[g.par(0, *D["p"])], g.b[g.this(*D["p"])] = p, s
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "distance", "the position error is the distance of the positions", lambda: A.sc(e.val), sqrt(norm2(p - s)))
    for fn in pick(ctx, PB + "get_rotation_error"):
        g = Fx(ctx, fn)
        for e in g.exits:
            A = g.alg()
            ts = {t for t in subterms(e.val) if t.op == "call" and str(t.a[0]).endswith("angularDistance")}
            ctx.item(g.sid + ": the rotation error is the angle between the two orientations")
            if len(ts) != 1:
                undecided(ctx, g, "rotation error")
                continue
            t = ts.pop()
            if {t.a[1], t.a[2]} != {g.this(*D["q"]), g.par(0, *D["q"])}:
                ctx.violation(g.sid + ":operands", where(fn, e.node), "the angle is not that between the two orientations")
            A.bind[t] = sym("angle")
            ctx.item(g.sid + ": the rotation error is in degrees")
            c = coefficient(A.sc(e.val), sym("angle"))
            if c is None:
                undecided(ctx, g, "rotation error")
            elif abs(c - 180 / math.pi) > 1e-9:
                ctx.violation(g.sid + ":degrees", where(fn, e.node), "the rotation error is %g times the angle, not in degrees" % c)


def coefficient(r, s):
    """c if r = c s for a number c"""
    q = (r / s).const()
    return None if q is None else float(q)


# ---- motion model
def model(ctx):
    """fields of the motion model: velocities by their getters, last pose by what reset(position, rotation) stores"""
    D = {}
    for f in ctx.prog.find(MM + "get_position_velocity"):
        if not f.params:
            D["lv"] = getter_of(ctx, f)
    for f in ctx.prog.find(MM + "get_angular_velocity"):
        D["av"] = getter_of(ctx, f)
    for f in ctx.prog.find(MM + "reset"):
        if len(f.params) == 2:
            g = Fx(ctx, f)
            for e in g.exits:
                for loc, v in written(e):
                    if v is g.par(0):
                        D["lp"] = loc
                    elif v is g.par(1):
                        D["lq"] = loc
                    elif v is TRUE:
                        D["set"] = loc
    ctx.need(all(k in D for k in ("lv", "av", "lp", "lq", "set")), "state of the motion model")
    return D


def getter_of(ctx, f):
    g = Fx(ctx, f)
    t = g.exits[0].val
    if t.op == "init" and t.a[0][0] == ("o", "this"):
        return t.a[0][1:]
    return None


def written(e):
    for r, d in e.S.store.items():
        if r == ("o", "this"):
            for p, v in d.items():
                yield p, v


def model_reset(ctx):
    D = model(ctx)
    one = [const(1), const(0), const(0), const(0)]
    for fn in pick(ctx, MM + "reset"):
        g = Fx(ctx, fn)
        p, q = vecn("p", 3), qsym("q")
        for e in g.exits:
            Q = Quat(g.alg())
            Q.bind[g.this(*D["lq"])], Q.bind[g.this(*D["av"])] = qsym("k"), qsym("a")
            Q.A.bind[g.this(*D["lp"])], Q.A.bind[g.this(*D["lv"])] = vecn("l", 3), vecn("u", 3)
            if fn.params:
                Q.A.bind[g.par(0)] = p
                Q.bind[g.par(1)] = q
                compare(ctx, g, e, "position", "a reset remembers the given position", lambda: Q.A.mat(self_read(e, D["lp"])), p)
                qcompare(ctx, g, e, Q, "rotation", "a reset remembers the given rotation", self_read(e, D["lq"]), lambda: q)
            compare(ctx, g, e, "velocity", "a reset forgets the velocity", lambda: Q.A.mat(self_read(e, D["lv"])), zeros(3, 1))
            qcompare(ctx, g, e, Q, "angular", "a reset forgets the angular velocity", self_read(e, D["av"]), lambda: one)
            ctx.item(g.sid + ": whether a last pose is known")
            k = self_read(e, D["set"])
            if k is not (TRUE if fn.params else FALSE):
                ctx.violation(g.sid + ":set", where(fn, e.node), "the last pose is marked %s" % k)


def model_exits(ctx, g, D):
    known = g.this(*D["set"])
    P = Pred(g)
    K = opaque("known")
    P.hook = lambda t: K if t is known else None
    return known, P, K


def model_first(ctx):
    """no pose is known: the pose itself is predicted and remembered, velocities stay"""
    D, F = model(ctx), fields(ctx)
    for fn in pick(ctx, MM + "predict_next_pose"):
        g = Fx(ctx, fn)
        known = g.this(*D["set"])
        p, q, v = vecn("p", 3), qsym("q"), matn("v", 6, 6)
        g.b[g.par(0, *F["p"])], g.b[g.par(0, *F["v"])] = p, v
        n = 0
        for e in g.exits:
            if e.S.facts.get(known) is not False:
                continue
            n += 1
            Q = Quat(g.alg())
            Q.bind[g.par(0, *F["q"])] = q
            A = Q.A
            compare(ctx, g, e, "first-position", "the first prediction is the given pose (position)", lambda: A.mat(proj_path(e.val, F["p"])), p)
            qcompare(ctx, g, e, Q, "first-rotation", "the first prediction is the given pose (orientation)", proj_path(e.val, F["q"]), lambda: q)
            compare(ctx, g, e, "first-variance", "the first prediction is the given pose (variance)", lambda: A.mat(proj_path(e.val, F["v"])), v)
            remembers(ctx, g, e, D, Q, p, q)
            for k, nm in (("lv", "velocity"), ("av", "angular velocity")):
                ctx.item("%s: no %s is known after one pose" % (g.sid, nm))
                if self_read(e, D[k]) is not g.this(*D[k]):
                    undecided(ctx, g, "first " + nm)
        if not n:
            undecided(ctx, g, "first pose")


def remembers(ctx, g, e, D, Q, p, q):
    compare(ctx, g, e, "last-position", "the given position is remembered", lambda: Q.A.mat(self_read(e, D["lp"])), p)
    qcompare(ctx, g, e, Q, "last-rotation", "the given rotation is remembered", self_read(e, D["lq"]), lambda: q)
    ctx.item(g.sid + ": a last pose is known afterwards")
    k = self_read(e, D["set"])
    if not (k is TRUE or k is g.this(*D["set"]) and e.S.facts.get(k) is True):
        if k in (TRUE, FALSE) or k is g.this(*D["set"]):
            ctx.violation(g.sid + ":set", where(g.fn, e.node), "the pose is not marked as known")
        else:
            undecided(ctx, g, "known pose")


def model_next(ctx):
    D, F = model(ctx), fields(ctx)
    for fn in pick(ctx, MM + "predict_next_pose"):
        g = Fx(ctx, fn)
        known = g.this(*D["set"])
        p, q, v = vecn("p", 3), qsym("q"), matn("v", 6, 6)
        lp, lq, lv, av = vecn("l", 3), qsym("k"), vecn("u", 3), qsym("a")
        g.b[g.par(0, *F["p"])], g.b[g.par(0, *F["v"])] = p, v
        g.b[g.this(*D["lp"])], g.b[g.this(*D["lv"])] = lp, lv
        more = g.par(1)
        n = 0
        for e in g.exits:
            if e.S.facts.get(known) is not True:
                continue
            n += 1
            Q = Quat(g.alg())
            Q.bind[g.par(0, *F["q"])] = q
            Q.bind[g.this(*D["lq"])], Q.bind[g.this(*D["av"])] = lq, av
            A = Q.A
            vel = (p - lp + lv).map(lambda x: x.scale(Fraction(1, 2)))
            conj = [lq[0]] + [x.scale(-1) for x in lq[1:]]
            half = const(Fraction(1, 2))
            compare(ctx, g, e, "velocity", "the velocity is the mean of the last displacement and the last velocity",
                    lambda: A.mat(self_read(e, D["lv"])), vel)
            compare(ctx, g, e, "position", "the predicted position is the current one plus the velocity",
                    lambda: A.mat(proj_path(e.val, F["p"])), p + vel)
            # the angular velocity is measured on the left (world) or on the right (body) of the orientation, and applied there
            world, body = qmul(q, conj), qmul(conj, q)
            ctx.item(g.sid + ": the angular velocity is half way between the last turn and the last angular velocity")
            ctx.item(g.sid + ": the predicted orientation is the current one turned by the angular velocity")
            try:
                got = Q.ev(self_read(e, D["av"]))
                pred = Q.ev(proj_path(e.val, F["q"]))
            except (NoQuat, Shape):
                undecided(ctx, g, "angular velocity")
                continue
            if any(unknown_atoms(c) for c in got + pred):
                undecided(ctx, g, "angular velocity")
                continue
            w, b = Q.slerp(world, half, av), Q.slerp(body, half, av)
            if same(got, w):
                want = qmul(w, q)
            elif same(got, b):
                want = qmul(q, b)
            else:
                ctx.violation(g.sid + ":angular", where(fn, e.node), "the angular velocity is not half way between the last turn and the last one")
                continue
            if not same(pred, want):
                ctx.violation(g.sid + ":orientation", where(fn, e.node), "the predicted orientation is not the current one turned by the "
                              "angular velocity in the frame it was measured in")
            remembers(ctx, g, e, D, Q, p, q)
            variance(ctx, g, e, F, A, v, more)
        if not n:
            undecided(ctx, g, "next pose")


def variance(ctx, g, e, F, A, v, more):
    ctx.item(g.sid + ": variance is added exactly on demand")
    std = [10, 10, 10, Fraction(1, 10), Fraction(1, 10), Fraction(1, 10)]
    K = opaque("more")
    P = Pred(g)
    P.hook = lambda t: K if t is more else None
    try:
        cs = cases(g, e.S, [proj_path(e.val, F["v"])])
    except Shape:
        return undecided(ctx, g, "variance")
    for ch, (t,), pcs in cs:
        try:
            m = A.mat(t)
        except Shape:
            undecided(ctx, g, "variance")
            continue
        if any(unknown_atoms(x) for x in m.e):
            undecided(ctx, g, "variance")
            continue
        d = m - v
        cond = And(*[P.term(x) if pl else Not(P.term(x)) for x, pl in e.S.facts.items() if x is more], *[P.pc(pc) for pc in pcs])
        if mequal(d, zeros(6, 6)):
            decide(ctx, g, e.node, "variance-kept", "the variance is left alone only when no increase is asked for", cond, Not(K), mode="implies")
            continue
        off = all(i == j or equal(d.at(i, j), const(0)) for i in range(6) for j in range(6))
        ok = off and all(near(d.at(i, i), std[i] ** 2) for i in range(6))
        if not ok:
            ctx.violation(g.sid + ":variance", where(g.fn, e.node), "the variance added is not (10 mm)^2 for the position and (0.1 rad)^2 for the angles")
        decide(ctx, g, e.node, "variance-added", "variance is added only when an increase is asked for", cond, K, mode="implies")


def near(r, x):
    c = r.const()
    return c is not None and abs(float(c) - float(x)) < 1e-9


# ---- Euler angles
def elementary(Q, roll, pitch, yaw):
    def axis(i, a):
        c, s = Q.halves(a)
        return [c] + [s if k == i else const(0) for k in range(3)]
    return qmul(qmul(axis(0, roll), axis(1, pitch)), axis(2, yaw))


def euler(ctx):
    r, p, y = sym("roll"), sym("pitch"), sym("yaw")
    for fn in pick(ctx, "utils::get_quaternion_from_euler_angles") + pick(ctx, "utils::get_rotation_matrix_from_euler_angles"):
        g = Fx(ctx, fn)
        for k, v in (("roll", r), ("pitch", p), ("yaw", y)):
            g.b[g.par(0, k)] = v
        for e in g.exits:
            Q = Quat(g.alg())
            t = e.val
            if t.op == "call" and str(t.a[0]).endswith("toRotationMatrix"):
                t = t.a[1]
            elif "matrix" in fn.short:
                undecided(ctx, g, "rotation matrix")
                continue
            qcompare(ctx, g, e, Q, "product", "Euler angles denote Rx(roll) Ry(pitch) Rz(yaw)", t, lambda: elementary(Q, r, p, y))
    for fn in pick(ctx, "utils::get_euler_angles_from_quaternion"):
        g = Fx(ctx, fn)
        for e in g.exits:
            vs = {k: proj_path(e.val, (k,)) for k in ("roll", "pitch", "yaw")}
            src = {t for v in vs.values() for t in subterms(v) if t.op == "call" and str(t.a[0]).split("::")[-1].split("<")[0] in ("angles", "eulerAngles")}
            ctx.item(g.sid + ": the three angles of the quaternion's rotation matrix")
            if len(src) != 1:
                undecided(ctx, g, "angles")
                continue
            t = src.pop()
            if str(t.a[0]).endswith("eulerAngles") and [cval(x) for x in t.a[2:5]] != [0, 1, 2]:
                undecided(ctx, g, "angles")
                continue
            m = t.a[1]
            if not (m.op == "call" and str(m.a[0]).endswith("toRotationMatrix") and m.a[1] is g.par(0)):
                if any(x is g.par(0) for x in subterms(m)):
                    undecided(ctx, g, "angles of what")
                else:
                    ctx.violation(g.sid + ":source", where(fn, e.node), "the angles are not those of the given quaternion")
                continue
            for i, k in enumerate(("roll", "pitch", "yaw")):
                ctx.item("%s: %s is the angle around axis %d" % (g.sid, k, i))
                if vs[k] is not proj_path(t, (("i", "at", num(i)),)):
                    other = [j for j in range(3) if vs[k] is proj_path(t, (("i", "at", num(j)),))]
                    if other:
                        ctx.violation("%s:%s" % (g.sid, k), where(fn, e.node), "%s is taken from the angle around axis %d" % (k, other[0]))
                    else:
                        undecided(ctx, g, k)
    for fn in [f for f in ctx.prog.find("EulerAngles::EulerAngles") if len(f.params) == 3]:
        g = Fx(ctx, fn)
        for e in g.exits:
            for i, k in enumerate(("yaw", "pitch", "roll")):
                ctx.item("EulerAngles: argument %d is %s" % (i, k))
                if self_read(e, (k,)) is not g.par(i):
                    ctx.violation("EulerAngles:" + k, where(fn, e.node), "%s is not set from argument %d" % (k, i))


class Angles(Quat):
    """quarter turns are exact"""

    def halves(self, a):
        c = a.const()
        if c is not None:
            k = float(c) / (math.pi / 2)
            if abs(k - round(k)) < 1e-9:
                return {0: (const(1), const(0)), 1: (const(1), const(1)), -1: (const(1), const(-1)), 2: (const(0), const(1)),
                        -2: (const(0), const(-1)), 3: (const(-1), const(1)), -3: (const(-1), const(-1))}.get(round(k)) or Quat.halves(self, a)
        return Quat.halves(self, a)


def camera_axes(ctx):
    """x right, y down, z forward (camera) to x forward, y left, z up (world)"""
    gs = [(n, v) for n, v in ctx.prog.globals.items() if n.endswith("utils::CameraToWorld")]
    for n, v in gs:
        ctx.item("CameraToWorld: camera axes (right, down, forward) are world (-y, -z, x)")
        t = ctx_global(ctx, v)
        if t is None:
            ctx.count("undecided")
            ctx.notes.append("undecided: CameraToWorld: initialiser")
            continue
        g, e = t
        A = g.alg()
        Q = Angles(A)

        def hook(x):
            if x.op == "call" and str(x.a[0]).endswith("toRotationMatrix"):
                try:
                    return rotation(Q.ev(x.a[1]))
                except NoQuat:
                    return None
            return None
        A.hook = hook
        want = M(4, 4, [const(c) for c in (0, 0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 1)])
        try:
            m = A.mat(e.val)
        except Shape:
            m = None
        if m is None or any(unknown_atoms(x) for x in m.e):
            ctx.count("undecided")
            ctx.notes.append("undecided: CameraToWorld: value")
            continue
        if not mequal(m, want):
            ctx.violation("CameraToWorld:axes", "%s:%s" % (v["file"], v["l"]), "the axes correction does not take camera (right, down, forward) to "
                          "world (-y, -z, x)")


def ctx_global(ctx, v):
    """value of a global's initialiser, as that of a function returning it"""
    import facts
    fn = facts.Fn()
    for k in fn.__slots__:
        setattr(fn, k, None)
    fn.id, fn.qn, fn.n, fn.file, fn.l, fn.el = "init:" + v["qn"], v["qn"], v["n"], v["file"], v["l"], v["l"]
    fn.kind, fn.ret, fn.params, fn.inits = "fn", v["t"].replace("const ", ""), [], []
    fn.raw = {"kind": "fn"}
    fn.body = {"k": "block", "a": [{"k": "return", "e": v["init"], "l": v["l"]}], "l": v["l"]}
    g = Fx(ctx, fn)
    return (g, g.exits[0]) if len(g.exits) == 1 and g.exits[0].val is not None else None
