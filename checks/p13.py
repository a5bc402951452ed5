RULE = """
Value numbering of the configuration loader and of the accessors, composed: each accessor's result, as a function of the
configuration store, is evaluated on the store each exit of the loader leaves. Every entry is the value of the file's key of
that name (normal forms), the camera 2 transformation is Rx Ry Rz of the rotation offsets with the translation offsets, and
the intrinsics are the pinhole matrix of focal and center. The answer, as a boolean function of the signs of the keys
(exhaustive expansion over the sign regions), is that every size and focal is positive and no center negative. A file that
cannot be opened leaves what the defaults leave.
"""
from fractions import Fraction
from formula import *
from preds import *
from loops import *
from quat import *

CLS = "Parameters::"


def run(ctx):
    ctx.group(loading)
    ctx.group(defaults)
    ctx.group(matrices)
    ctx.assume("The configuration is loaded before first use: values cached by function local statics are those of the "
               "configuration. A key missing from the file reads as zero (OpenCV). Real arithmetic.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def wraps(t):
    if t.op in ("call", "new"):
        n = str(t.a[0]).split("::")[-1]
        return n.startswith("operator ") or n in ("real", "string") or "FileNode" in str(t.a[0])
    return t.op == "trunc"


def text(x):
    for u in subterms(x):
        if u.op == "c" and isinstance(u.a[-1], str) and u.a[0] in ("s", "str"):
            return u.a[-1]
    return None


def key_of(t, fid=None):
    """the key a term reads from the file: a conversion of file[key]"""
    d = 0
    while wraps(t) and d < 6:
        args = [x for x in t.a[1:] if isinstance(x, T)] if t.op != "trunc" else [t.a[0]]
        if not args:
            return None
        t = args[0]
        d += 1
    if t.op == "fld" and d and t.a[0].op == "new" and "FileStorage" in str(t.a[0].a[0]):
        for el in t.a[1:]:
            for e in ([el] if isinstance(el, T) else list(el)):
                if isinstance(e, T):
                    k = text(e)
                    if k:
                        return k
                elif isinstance(e, tuple):
                    for u in e:
                        if isinstance(u, T):
                            k = text(u)
                            if k:
                                return k
    return None


class Store:
    """the configuration as the accessors read it from the state S"""

    def __init__(self, ctx, g):
        self.ctx, self.g = ctx, g
        self.get = {}
        for n in ["is_valid", "get_camera_2_to_camera_1_transformation"] + \
                ["get_camera_%d_%s" % (c, w) for c in (1, 2) for w in ("image_size", "center", "focal", "intrinsics")]:
            f = pick1(ctx, CLS + n)
            h = Fx(ctx, f)
            if len(h.exits) != 1:
                raise Shape("accessor " + n)
            self.get[n] = h.exits[0].val

    def read(self, S, n):
        t = self.get[n]
        m = {}
        for u in subterms(t):
            if u.op == "init" and u.a[0][0][0] == "g":
                m[u] = S.read(u.a[0])
        return subst(t, m)


def binder(g, A, terms):
    """binds the reads of the file's keys to symbols"""
    keys = {}
    for u in list(closure(g.E, terms)):
        if not isinstance(u, T):
            continue
        if u.op == "unsigned" and key_of(u.a[0]):
            A.bind[u] = absv(sym(key_of(u.a[0])))      # the sign of a negative size is lost
            keys[key_of(u.a[0])] = True
        elif wraps(u):
            k = key_of(u)
            if k:
                whole = "_size_" not in k and any(v.op == "trunc" or v.op == "call" and str(v.a[0]).endswith("operator int")
                                                  for v in subterms(u) if wraps(v))
                A.bind[u] = sym("int(%s)" % k if whole else k)
                keys[k] = True
    return keys


def loading(ctx):
    f = pick1(ctx, CLS + "parse_file")
    g = Fx(ctx, f)
    st = Store(ctx, g)
    opened = closed = 0
    for x in g.exits:
        o = [p for t, p in x.S.facts.items() if t.op == "call" and str(t.a[0]).endswith("isOpened")]
        if not o:
            undecided(ctx, g, "an exit that does not depend on the file being open")
        elif o[0]:
            opened += 1
            loaded(ctx, g, st, x)
        else:
            closed += 1
            fallback(ctx, g, st, x)
    ctx.need(opened, "an exit with a file")
    if not closed:
        undecided(ctx, g, "no exit without a file")


def loaded(ctx, g, st, x):
    valid = st.read(x.S, "is_valid")
    terms = [st.read(x.S, n) for n in st.get] + [x.val, valid]
    P = Pred(g)
    binder(g, P.A, terms)
    want = []
    for c in (1, 2):
        for i, a in enumerate("xy"):
            for what, acc in (("size", "image_size"), ("focal", "focal"), ("center", "center")):
                k = "camera_%d_%s_%s" % (c, what, a)
                s = sym(k)
                want.append(ge(s, const(0)) if what == "center" else gt(s, const(0)))

                def got(n="get_camera_%d_%s" % (c, acc), i=i):
                    A = g.alg()
                    binder(g, A, terms)
                    t = st.read(x.S, n)
                    v = project(t, ("i", "at", num(i)))
                    if v.op != "fld":
                        return A.sc(v)
                    return A.mat(t, (2, 1)).at(i)
                compare(ctx, g, x, "key:" + k, "the configured value is that of the key " + k, got, s,
                        alt=[fmax(const(0), s), absv(s)])
    offsets(ctx, g, st, x, terms)
    ctx.item("%s: the configuration is valid exactly when sizes and focals are positive and centers not negative" % g.sid)
    equivalent(ctx, g, x, "validity", "is_valid after loading", P.term(valid), And(*want))
    if x.val is not valid:
        ctx.item("%s: the answer is the validity of the configuration" % g.sid)
        equivalent(ctx, g, x, "answer", "the answer", P.term(x.val), And(*want))


def axis(a, s, c):
    i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[a]
    m = [[const(1) if r == k else const(0) for k in range(3)] for r in range(3)]
    m[i][i] = m[j][j] = c
    m[i][j], m[j][i] = s.scale(-1), s
    return M(3, 3, [e for r in m for e in r])


def rotation(q):
    """3x3 matrix of a quaternion [w, x, y, z], not necessarily unit"""
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    two = const(2)
    e = [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y),
         two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x),
         two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z]
    return M(3, 3, [v / n for v in e])


def offsets(ctx, g, st, x, terms):
    ctx.item("%s: the camera 2 transformation is that of the offsets of the file" % g.sid)
    t = st.read(x.S, "get_camera_2_to_camera_1_transformation")
    A = g.alg()
    binder(g, A, terms)
    Q = Quat(A)
    rots = [u for u in subterms(t) if u.op == "call" and str(u.a[0]).endswith("toRotationMatrix")]
    if len(rots) != 1:
        return undecided(ctx, g, "rotation of the camera 2 transformation")
    R3 = matn("rot", 3, 3)
    A.bind[rots[0]] = R3
    try:
        m = A.mat(t, (4, 4))
        want = M(4, 4, [R3.at(i, j) if i < 3 and j < 3 else sym("camera_2_translation_offset_" + "xyz"[i]) if i < 3
                        else const(1 if j == 3 else 0) for i in range(4) for j in range(4)])
        if not mequal(m, want):
            if unknown_atoms(m):
                return undecided(ctx, g, "camera 2 transformation")
            ctx.violation("%s:transformation" % g.sid, where(g.fn, x.node),
                          "the camera 2 transformation is not the rotation of the offsets with the translation offsets: %s" %
                          first_diff(m, want))
        q = Q.ev(rots[0].a[1])
    except (Shape, NoQuat) as e:
        return undecided(ctx, g, "camera 2 transformation: %s" % e)
    w = [const(1), const(0), const(0), const(0)]
    for a in "xyz":
        c, s = Q.halves(sym("camera_2_rotation_offset_" + a))
        r = [c] + [s if b == a else const(0) for b in "xyz"]
        w = mulq(w, r)
    if not all(equal(q[i] * w[j], q[j] * w[i]) for i in range(4) for j in range(i)):
        ctx.violation("%s:rotation" % g.sid, where(g.fn, x.node),
                      "the camera 2 rotation is not the rotation about x, y, z by the offsets of these names")


def mulq(a, b):
    w, x, y, z = a
    u, i, j, k = b
    return [w * u - x * i - y * j - z * k, w * i + x * u + y * k - z * j, w * j - x * k + y * u + z * i,
            w * k + x * j - y * i + z * u]


def equivalent(ctx, g, x, key, what, got, want):
    """got <=> want by expansion over the sign regions of single symbols"""
    ls = leaves(got) | leaves(want)
    th = {}
    wl = {l[1] for l in leaves(want)}
    for l in ls:
        if l[0] != "cmp" or l[1] not in wl:
            return undecided(ctx, g, "%s: %s" % (what, show_leaf(l)))
        th.setdefault(l[1], set()).add(l[2])
    order = sorted(th, key=repr)
    pts = {}
    for d, ts in th.items():
        ts = sorted(ts)
        p = [ts[0] - 1]
        for i, t in enumerate(ts):
            p += [t, t + 1 if i + 1 == len(ts) else (t + ts[i + 1]) / 2]
        pts[d] = p
    n = [0]

    def part(f, env):
        if isinstance(f, bool):
            return f
        if f[0] == "not":
            return Not(part(f[1], env))
        if f[0] == "and":
            return And(*[part(h, env) for h in f[1]])
        if f[0] == "or":
            return Or(*[part(h, env) for h in f[1]])
        d, t, op = f[1:]
        if d not in env:
            return f
        v = env[d]
        return {">": v > t, ">=": v >= t, "==": v == t, "<": v < t, "<=": v <= t}[op]

    def go(i, a, b, env):
        n[0] += 1
        if isinstance(a, bool) and isinstance(b, bool):
            return None if a == b else (a, dict(env))
        if i == len(order) or n[0] > 20000:
            return (None, dict(env))
        d = order[i]
        for v in pts[d]:
            r = go(i + 1, part(a, {d: v}), part(b, {d: v}), dict(env, **{show_leaf(("cmp", d, Fraction(0), ">")): v}))
            if r:
                return r
        return None

    r = go(0, part(got, {}), part(want, {}), {})
    ctx.count("sign_regions_examined", n[0])
    if r is None:
        return
    if r[0] is None:
        return undecided(ctx, g, what)
    ctx.violation("%s:%s" % (g.sid, key), where(g.fn, x.node), "%s is %s for %s" % (
        what, str(r[0]).lower(), ", ".join("%s %s" % (k.replace(" > 0", ""), "< 0" if v < 0 else "= 0" if v == 0 else "> 0")
                                          for k, v in list(r[1].items())[-3:])))


def fallback(ctx, g, st, x):
    ctx.item("%s: a file that cannot be opened is reported" % g.sid)
    if x.val is not FALSE:
        if x.val is TRUE:
            ctx.violation("%s:unopened" % g.sid, where(g.fn, x.node), "answers true for a file that could not be opened")
        else:
            undecided(ctx, g, "answer without a file")
    f = pick1(ctx, CLS + "load_defaut")
    h = Fx(ctx, f)
    for n in st.get:
        ctx.item("%s: %s is the default when the file cannot be opened" % (g.sid, n))
        a = st.read(x.S, n)
        b = [st.read(y.S, n) for y in h.exits]
        if any(a is not t for t in b):
            if any(u.op in ("phi", "loop") for t in b + [a] for u in subterms(t)):
                undecided(ctx, g, "defaults")
            else:
                ctx.violation("%s:fallback:%s" % (g.sid, n), where(g.fn, x.node),
                              "%s is %s after a file that could not be opened, not the default %s" % (n, show(a)[:60], show(b[0])[:60]))


def defaults(ctx):
    f = pick1(ctx, CLS + "load_defaut")
    g = Fx(ctx, f)
    st = Store(ctx, g)
    for x in g.exits:
        A = g.alg()
        for c in (1, 2):
            for acc in ("image_size", "focal", "center"):
                n = "get_camera_%d_%s" % (c, acc)
                ctx.item("%s: the default %s is valid" % (g.sid, n[4:]))
                v = A.ev(st.read(x.S, n))
                vs = [e.const() for e in v.e] if isinstance(v, M) else []
                if len(vs) != 2 or None in vs:
                    if any(u.op == "init" and u.a[0][0][0] == "g" for u in subterms(st.read(x.S, n))):
                        ctx.violation("%s:%s" % (g.sid, n), where(f, x.node), "%s keeps its previous value" % n[4:])
                    else:
                        undecided(ctx, g, n)
                elif any(e < 0 or e == 0 and acc != "center" for e in vs):
                    ctx.violation("%s:%s" % (g.sid, n), where(f, x.node), "the default %s is not valid" % n[4:])
        ctx.item("%s: the default configuration is reported valid" % g.sid)
        v = st.read(x.S, "is_valid")
        if v is not TRUE:
            P = Pred(g)
            r = P.term(v)
            if r is not True:
                if isinstance(r, bool) or v.op == "init":
                    ctx.violation("%s:valid" % g.sid, where(f, x.node),
                                  "the default configuration is not reported valid (is_valid is %s)" % show(v)[:80])
                else:
                    undecided(ctx, g, "validity of the defaults")
        ctx.item("%s: the default camera 2 transformation is the identity" % g.sid)
        t = st.read(x.S, "get_camera_2_to_camera_1_transformation")
        for u in subterms(t):
            if u.op == "call" and str(u.a[0]).endswith("toRotationMatrix"):
                try:
                    q = Quat(A).ev(u.a[1])
                    if all(equal(e, const(0)) for e in q[1:]):
                        A.bind[u] = identity(3)
                except (NoQuat, Shape):
                    pass
        try:
            m = A.mat(t, (4, 4))
        except Shape as e:
            undecided(ctx, g, "default transformation: %s" % e)
            continue
        if not mequal(m, identity(4)):
            if unknown_atoms(m):
                undecided(ctx, g, "default transformation")
            else:
                ctx.violation("%s:identity" % g.sid, where(f, x.node), "the default camera 2 transformation is not the identity")


def matrices(ctx):
    for c in (1, 2):
        f = pick1(ctx, CLS + "get_camera_%d_intrinsics" % c)
        g = Fx(ctx, f)
        foc = Fx(ctx, pick1(ctx, CLS + "get_camera_%d_focal" % c)).exits[0].val
        cen = Fx(ctx, pick1(ctx, CLS + "get_camera_%d_center" % c)).exits[0].val
        siz = Fx(ctx, pick1(ctx, CLS + "get_camera_%d_image_size" % c)).exits[0].val
        for x in g.exits:
            def want():
                A = g.alg()
                F, C = A.mat(foc, (2, 1)), A.mat(cen, (2, 1))
                z = const(0)
                return M(3, 3, [F.at(0), z, C.at(0), z, F.at(1), C.at(1), z, z, const(1)])
            compare(ctx, g, x, "intrinsics", "camera %d intrinsics are the pinhole matrix of focal and center" % c,
                    lambda: g.alg().mat(x.val, (3, 3)), want)
        ctx.item("camera %d: size, focal and center are kept apart" % c)
        if len({foc, cen, siz}) < 3:
            ctx.violation("camera%d:distinct" % c, where(f), "two accessors of camera %d read the same value" % c)
