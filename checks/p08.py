RULE = """
The value numbers of the patch operations are rewritten to normal forms over symbolic accumulators and compared with the
equations: one iteration of the accumulation loop adds (1, x, y, z, xx, yy, zz, xy, yz, zx) of one cell of the cloud exactly
when its depth is positive, and every carried sum starts at zero; merging adds every accumulator; the scatter matrix is the
Koenig-Huygens one; the fitted plane goes through the centroid along the eigenvector of the smallest eigenvalue, turned
towards the camera; error and score are those of its eigenvalues. Merge, similarity and continuity tests are compared with
their conditions by enumeration of sign regions. The two scans of a cell are loops whose step, start, end and carried depth
are compared with those of a middle row and column.
"""
from fractions import Fraction
from formula import *
from preds import *
from loops import *
import effects as EF

SUMS = {"_Sx": (1, 0, 0), "_Sy": (0, 1, 0), "_Sz": (0, 0, 1), "_Sxs": (2, 0, 0), "_Sys": (0, 2, 0), "_Szs": (0, 0, 2),
        "_Sxy": (1, 1, 0), "_Syz": (0, 1, 1), "_Szx": (1, 0, 1)}
C = "Plane_Segment::"


def run(ctx):
    for f in (names, clearing, accumulation, planarity, expansion, scatter, hessian, fit, tests, continuity, scans, shapes, copies):
        ctx.group(f)
    ctx.assume("Sums over the real numbers; float to double conversions are exact. The eigen decomposition is Eigen's "
               "(ascending eigenvalues, unit eigenvectors).")


def mono(p, e):
    r = const(1)
    for v, k in zip(p.e if isinstance(p, M) else p, e):
        for _ in range(k):
            r = r * v
    return r


def fields(ctx):
    g = lambda n: getter(ctx, C + n)
    d = {"n": g("get_point_count"), "mse": g("get_MSE"), "score": g("get_score"), "planar": g("is_planar"),
         "centroid": g("get_centroid")}
    d["normal"] = getter(ctx, C + "get_normal")
    d["d"] = getter(ctx, C + "get_plane_d")
    return d


def names(ctx):
    """the nine sums are the fields that the class declares"""
    rec = next((r for r in ctx.prog.records.values() if r["qn"].endswith("::Plane_Segment")), None)
    ctx.need(rec, "Plane_Segment")
    have = {f["n"] for f in rec["fields"]}
    ctx.need(all(n in have for n in SUMS), "the accumulators of Plane_Segment")


def clearing(ctx):
    D = fields(ctx)
    for suffix in (C + "clear_plane_parameters", C + "Plane_Segment"):
        for fn in pick(ctx, suffix, lambda f: not f.params):
            g = Fx(ctx, fn)
            for x in g.exits:
                A = g.alg()
                for n in SUMS:
                    compare(ctx, g, x, n, "a cleared patch has %s = 0" % n, lambda: A.sc(self_read(x, (n,))), const(0))
                for k in ("n", "score"):
                    compare(ctx, g, x, k, "a cleared patch has no %s" % k, lambda: A.sc(self_read(x, D[k])), const(0))
                ctx.item(g.sid + ": a cleared patch is not planar")
                if cval(self_read(x, D["planar"])) is not False:
                    ctx.violation(g.sid + ":planar", where(fn, x.node), "a cleared patch is still marked planar")
                compare(ctx, g, x, "centroid", "a cleared patch has a null centroid", lambda: A.mat(self_read(x, D["centroid"])), zeros(3, 1))


def accumulation(ctx):
    D = fields(ctx)
    fn = pick1(ctx, C + "init_plane_segment")
    g = loops(ctx, fn, policy=NoFit())
    n = 0
    for x in g.exits:
        vals = {f: self_read(x, (f,)) for f in SUMS}
        vals["n"] = self_read(x, D["n"])
        if all(cval(v) == 0 for v in vals.values()):
            continue        # refused before any point was added
        n += 1
        one_loop(ctx, g, x, vals)
    ctx.need(n, "a path that accumulates points")


class NoFit(FPolicy):
    deny = DENY + ("get_depth_quantization", "is_cell_vertical_continuous", "is_cell_horizontal_continuous")


def one_loop(ctx, g, x, vals):
    E = g.E
    heads = {f: v for f, v in vals.items() if v.op == "phi" and v in E.cond and v.a[0] in g.ends}
    keys = {v.a[0] for v in heads.values()}
    ctx.item(g.sid + ": all sums and the count run over the same points")
    if len(keys) != 1 or len(heads) != len(vals):
        missing = [f for f in vals if f not in heads]
        if len(keys) == 1 and all(cval(vals[f]) is not None for f in missing):
            ctx.violation(g.sid + ":missing", where(g.fn, x.node), "%s is not accumulated with the others" % ", ".join(missing))
        else:
            ctx.count("undecided")
            ctx.notes.append("undecided: %s: the accumulation is not a single loop" % g.sid)
        return
    key = keys.pop()
    S, F, node = g.ends[key]
    for t in carried(g, key).values():
        g.b.setdefault(t[0], sym("head" + showloc(t[0].a[1])))
    A = g.alg()
    for f, h in heads.items():
        compare(ctx, g, x, f + "0", "%s starts at 0" % f, lambda: A.sc(carried(g, key)[h.a[1]][1]), const(0))
    ends = {f: S.read(h.a[1]) for f, h in heads.items()}
    order = list(heads)
    P = Pred(g)
    P.A = A
    added, skipped = [], []
    pts = set()
    for ch, ts, pcs in cases(g, S, [ends[f] for f in order]):
        dv = {f: A.sc(t) - A.sc(heads[f]) for f, t in zip(order, ts)}
        if all(v.zero() for v in dv.values()):
            skipped.append(case_formula(P, S, pcs))
            continue
        X = [dv["_Sx"], dv["_Sy"], dv["_Sz"]]
        if any(unknown_atoms(v) for v in X):
            return undecided(ctx, g, "what is accumulated")
        for f in order:
            want = const(1) if f == "n" else mono(X, SUMS[f])
            ctx.item("%s: one point adds its monomial to %s" % (g.sid, f))
            if not equal(dv[f], want):
                ctx.violation("%s:add%s" % (g.sid, f), where(g.fn, node),
                              "one iteration adds %r to %s, not %r (the point added is %r)" % (dv[f], f, want, X))
        added.append(case_formula(P, S, pcs))
        pts.add(tuple(v.key() for v in X))
        point(ctx, g, X, node, key, A)
        Z = X[2]
    if not added or len(pts) != 1:
        return undecided(ctx, g, "the accumulated point")
    decide(ctx, g, node, "depth", "a point is added exactly when its depth is positive", Or(*added), gt(Z, const(0)),
           side=Or(*(added + skipped)))


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def cell_atom(r):
    if len(r.n) == 1 and r.d == {(): 1}:
        (m, c), = r.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = _byid[m[0][0]]
            return a if a.kind == "cell" else None
    return None


from algebra import _byid  # noqa: E402


def point(ctx, g, X, node, key, A):
    """the point added is one row of the cell's part of the cloud"""
    ats = [cell_atom(v) for v in X]
    if any(a is None for a in ats):
        return undecided(ctx, g, "the elements accumulated")
    ctx.item(g.sid + ": the point is one row (x, y, z) of the cell's block of the cloud")
    ok = all(equal(a.data[1], const(i)) for i, a in enumerate(ats)) and len({a.key[0] for a in ats}) == 1 and \
        all(equal(a.data[0], ats[0].data[0]) for a in ats)
    if not ok:
        ctx.violation(g.sid + ":columns", where(g.fn, node), "the values added are not columns 0, 1, 2 of one row: %r" % ats)
        return
    # rows visited: cell * points per cell + 0 .. points per cell - 1
    car = carried(g, key)
    per = A.sc(mk("init", (("g", "rgbd_slam::features::primitives::Plane_Segment::_ptsPerCellCount"),)))
    row = ats[0].data[0]
    idx = [t for loc, t in car.items() if g.b[t[0]].n and list(g.b[t[0]].atoms())[0] in row.atoms()]
    if len(idx) != 1:
        return undecided(ctx, g, "rows visited")
    h, first, nxt = idx[0]
    a = list(g.b[h].atoms())[0]
    try:
        st, inc = A.sc(first), A.sc(nxt) - g.b[h]
    except Shape:
        return undecided(ctx, g, "rows visited")
    if unknown_atoms(st) or unknown_atoms(inc):
        return undecided(ctx, g, "rows visited")
    ctx.item(g.sid + ": rows start at cell * points per cell and advance by one")
    r0 = substitute(row, {a: st})
    cell = A.sc(g.par(1))
    if not equal(r0, cell * per):
        ctx.violation(g.sid + ":first-row", where(g.fn, node), "the first point is row %r, not cell * points per cell" % r0)
    dr = substitute(row, {a: g.b[h] + inc}) - row
    if not equal(dr, const(1)):
        ctx.violation(g.sid + ":row-step", where(g.fn, node), "rows advance by %r" % dr)
    lim = upper(g, A, key, h)
    if lim is None:
        return undecided(ctx, g, "last row visited")
    ctx.item(g.sid + ": every row of the cell is visited")
    if not equal(substitute(row, {a: lim}), cell * per + per):
        ctx.violation(g.sid + ":last-row", where(g.fn, node), "rows end before %r, not after the cell's last row" % substitute(row, {a: lim}))


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def planarity(ctx):
    """a patch is planar only after a fit whose error is below the squared quantization at the centroid"""
    D = fields(ctx)
    fn = pick1(ctx, C + "init_plane_segment")
    pol = NoFit()
    g = loops(ctx, fn, policy=pol)
    seen = 0
    for x in g.exits:
        v = self_read(x, D["planar"])
        if cval(v) is False:
            continue
        ctx.item(g.sid + ": a new patch is planar exactly when its error is within the depth quantization at its centroid")
        if cval(v) is True:
            ctx.violation(g.sid + ":planar", where(fn, x.node), "the patch is planar without a test of its error")
            continue
        seen += 1
        P = Pred(g)
        q = [t for t in subterms(v) if t.op == "call" and callname(t) == "get_depth_quantization"]
        mse = self_read(x, D["mse"])
        if len(q) != 1:
            undecided(ctx, g, "planarity")
            continue
        P.A.bind[q[0]] = sym("q")
        P.A.bind[mse] = sym("mse")
        for key in g.ends:
            for t in carried(g, key).values():
                P.A.bind.setdefault(t[0], sym("head" + showloc(t[0].a[1])))
        arg = q[0].a[-1]
        ctx.item(g.sid + ": the quantization is that of the centroid's depth")
        za, zc = P.A.sc(arg), P.A.mat(self_read(x, D["centroid"])).at(2, 0)
        if not equal(za, zc):
            if unknown_atoms(za) or unknown_atoms(zc):
                undecided(ctx, g, "argument of the quantization")
            else:
                ctx.violation(g.sid + ":quantization-at", where(fn, x.node), "the quantization is taken at %r, not at the centroid's depth" % za)
        decide(ctx, g, x.node, "planar", "planar exactly when the error is at most the squared quantization", P.term(v),
               le(sym("mse"), sym("q") * sym("q")), nan=True, mode="implies",
               free=[lambda l: l[0] == "p" and "double_equal" in repr(l[1])])
        decide(ctx, g, x.node, "not-planar", "planar whenever a fit succeeded with such an error", P.term(v),
               le(sym("mse"), sym("q") * sym("q")), mode="covers")
    ctx.need(seen, "planarity of a new patch")


def sums(g, i=None):
    """binds the accumulators of this (or of parameter i) to symbols"""
    out = {}
    for n in SUMS:
        s = sym(n if i is None else "o" + n)
        g.b[g.this(n) if i is None else g.par(i, n)] = s
        out[n] = s
    return out


def expansion(ctx):
    D = fields(ctx)
    fn = pick1(ctx, C + "expand_segment")
    g = Fx(ctx, fn, distinct=True)
    a, b = sums(g), sums(g, 0)
    n, m = sym("n"), sym("m")
    g.b[g.this(*D["n"])], g.b[g.par(0, *D["n"])] = n, m
    for x in g.exits:
        A = g.alg()
        for f in SUMS:
            compare(ctx, g, x, f, "merging adds %s" % f, lambda: A.sc(self_read(x, (f,))), a[f] + b[f])
        compare(ctx, g, x, "n", "merging adds the point counts", lambda: A.sc(self_read(x, D["n"])), n + m)
        for f in SUMS:
            ctx.item("%s: the merged patch is left as it was" % g.sid)
            if x.S.read((("o", "param", fn.params[0]["n"]), f)) is not g.par(0, f):
                ctx.violation(g.sid + ":other", where(fn, x.node), "the merged patch's %s is changed" % f)


def huygens(s, n):
    i = const(1) / n
    v = lambda q, a, b: q - a * b * i
    xx, yy, zz = [fmax(const(0), v(s[q], s[a], s[a])) for q, a in (("_Sxs", "_Sx"), ("_Sys", "_Sy"), ("_Szs", "_Sz"))]
    xy, xz, yz = v(s["_Sxy"], s["_Sx"], s["_Sy"]), v(s["_Szx"], s["_Sx"], s["_Sz"]), v(s["_Syz"], s["_Sy"], s["_Sz"])
    return M(3, 3, [xx, xy, xz, xy, yy, yz, xz, yz, zz])


def scatter(ctx):
    D = fields(ctx)
    fn = pick1(ctx, C + "get_point_cloud_Huygen_covariance")
    g = Fx(ctx, fn)
    s, n = sums(g), sym("n")
    g.b[g.this(*D["n"])] = n
    for x in g.exits:
        A = g.alg()
        compare(ctx, g, x, "huygens", "the scatter matrix is the sum of squares minus the product of sums over the count",
                lambda: A.mat(x.val), huygens(s, n))


def hessian(ctx):
    fn = pick1(ctx, C + "get_point_cloud_covariance")
    g = Fx(ctx, fn)
    s = sums(g)
    h = M(3, 3, [s[k] for k in ("_Sxs", "_Sxy", "_Szx", "_Sxy", "_Sys", "_Syz", "_Szx", "_Syz", "_Szs")])
    for x in g.exits:
        A = g.alg()
        compare(ctx, g, x, "hessian", "the point cloud covariance is the inverse of the second moments matrix",
                lambda: A.mat(x.val), lambda: inverse(h))


def fit(ctx):
    D = fields(ctx)
    fn = pick1(ctx, C + "fit_plane")
    g = Fx(ctx, fn)
    s, n = sums(g), sym("n")
    g.b[g.this(*D["n"])] = n
    c = M(3, 1, [s[k] / n for k in ("_Sx", "_Sy", "_Sz")])
    cov = huygens(s, n)
    done = 0
    for x in g.exits:
        A = g.alg()
        compare(ctx, g, x, "centroid", "the centroid is the mean of the points", lambda: A.mat(self_read(x, D["centroid"])), c)
        pl = cval(self_read(x, D["planar"]))
        ctx.item(g.sid + ": planar exactly when a plane was fitted")
        if pl is None:
            undecided(ctx, g, "planar flag")
            continue
        if pl is False:
            continue
        done += 1
        N, d = self_read(x, D["normal"]), self_read(x, D["d"])
        mse, score = self_read(x, D["mse"]), self_read(x, D["score"])
        vecs, vals = set(), set()
        for t in closure(g.E, (N, d, mse, score)):
            if t.op == "call" and callname(t) == "eigenvectors":
                vecs.add(t)
            if t.op == "call" and callname(t) == "eigenvalues":
                vals.add(t)
        if len(vecs) != 1 or len(vals) != 1:
            undecided(ctx, g, "eigen decomposition")
            continue
        ev, el = vecs.pop(), vals.pop()
        for t, what in ((ev, "eigenvectors"), (el, "eigenvalues")):
            src = t.a[-1]
            arg = next((y for y in src.a[1:] if isinstance(y, T) and y.op != "enum"), src) if src.op in ("new", "call") else src
            compare(ctx, g, x, what, "the %s are those of the scatter matrix" % what, lambda: A.mat(arg), cov)
        g.b[ev], g.b[el] = matn("e", 3, 3), vecn("l", 3)
        A = g.alg()
        e0 = M(3, 1, [A.ev(ev).at(i, 0) for i in range(3)])
        nrm = sqrt(norm2(e0))
        u = e0.map(lambda v: v / nrm)
        dist = dot(u, c).scale(-1)
        l = vecn("l", 3).e
        compare(ctx, g, x, "mse", "the error is the smallest eigenvalue over the count", lambda: A.sc(mse), absv(l[0]) / n)
        compare(ctx, g, x, "score", "the score is the ratio of the second to the smallest eigenvalue",
                lambda: A.sc(score), absv(l[1]) / fmax(absv(l[0]), const(1e-6)))
        P = Pred(g)
        P.A = A
        for ch, (tn, td), pcs in cases(g, x.S, [N, d]):
            choose({})
            ctx.item(g.sid + ": the plane goes through the centroid, normal along the smallest variance")
            gn, gd = A.mat(tn), A.sc(td)
            if unknown_atoms(gn) or unknown_atoms(gd):
                undecided(ctx, g, "plane parameters")
                continue
            sg = next((k for k in (1, -1) if mequal(gn, u.map(lambda v: v.scale(k))) and equal(gd, dist.scale(k))), None)
            # the plane constructor normalises again
            if sg is None:
                w = normalized(u)
                sg = next((k for k in (1, -1) if mequal(gn, w.map(lambda v: v.scale(k))) and equal(gd, dist.scale(k))), None)
            if sg is None:
                ctx.violation(g.sid + ":plane", where(fn, x.node), "the fitted plane is not (n, -n.c) for the eigenvector n of the smallest eigenvalue (%r, %r)" % (gn, gd))
                continue
            decide(ctx, g, x.node, "towards%d" % sg, "the normal is turned so that the distance is not negative (%+d)" % sg,
                   And(case_formula(P, x.S, pcs)), ge(dist.scale(sg), const(0)), mode="implies")
    ctx.need(done, "a path that fits a plane")


def tests(ctx):
    D = fields(ctx)
    for fn in pick(ctx, C + "can_be_merged"):
        g = Fx(ctx, fn)
        a, b = vecn("a", 3), vecn("b", 3)
        da = sym("da")
        c = vecn("c", 3)
        g.b[g.this(*D["normal"])], g.b[g.par(0, *D["normal"])] = a, b
        g.b[g.this(*D["d"])] = da
        g.b[g.par(0, *D["centroid"])] = c
        m = sym("max")
        g.b[g.par(1)] = m
        th = merge_angle(ctx, g)
        if th is None:
            undecided(ctx, g, "merge angle")
            continue
        P = Pred(g)
        dist = dot(a, c) + da
        decide(ctx, g, None, "merge", "patches merge exactly when cos(angle) > cos(limit) and |distance of the centroid| < maximum",
               P.true(), And(gt(dot(a, b), th), lt(absv(dist), m)), nan=True)
    for fn in pick(ctx, C + "get_cos_angle"):
        g = Fx(ctx, fn)
        a, b = vecn("a", 3), vecn("b", 3)
        g.b[g.this(*D["normal"])], g.b[g.par(0, *D["normal"])] = a, b
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "cos", "the cosine of two patches is that of their normals", lambda: A.sc(x.val), dot(a, b))
    for fn in pick(ctx, C + "get_point_distance"):
        g = Fx(ctx, fn)
        a, da, p = vecn("a", 3), sym("da"), vecn("p", 3)
        g.b[g.this(*D["normal"])], g.b[g.this(*D["d"])], g.b[g.par(0)] = a, da, p
        for x in g.exits:
            A = g.alg()
            compare(ctx, g, x, "distance", "the distance of a point is n.p + d", lambda: A.sc(x.val), dot(a, p) + da)


def merge_angle(ctx, g):
    """cos of the configured angle, as the code's own constant term: the function compares with cos(K * pi / 180)"""
    cs = set()
    for x in g.exits:
        for t in subterms((x.val,)):
            if t.op == "call" and callname(t) == "cos":
                cs.add(t)
        for cube in x.S.pc or ():
            for t, _ in cube:
                for u in subterms(t):
                    if u.op == "call" and callname(u) == "cos":
                        cs.add(u)
    if len(cs) != 1:
        return None
    t = cs.pop()
    k = g.alg().sc(t.a[-1])
    kc = k.const()
    v = param(ctx, "maximumPlaneAngleForMerge_d")
    ctx.item(g.sid + ": the merge angle is the configured one")
    if kc is not None and v is not None and abs(float(kc) - v * 3.141592653589793 / 180) > 1e-9:
        ctx.violation(g.sid + ":angle", where(g.fn), "the limit angle is %g rad, not %g degrees" % (float(kc), v))
    return g.alg().sc(t)


def param(ctx, name):
    for q, gl in getattr(ctx.prog, "globals", {}).items():
        if q.endswith("::" + name) and "cv" in gl:
            return float(gl["cv"])
    return None


def continuity(ctx):
    for fn in pick(ctx, "primitives::is_continuous"):
        g = Fx(ctx, fn, policy=NoFit())
        p, l = sym("p"), sym("l")
        g.b[g.par(0)], g.b[g.par(1)] = p, l
        q = {t for x in g.exits for t in subterms((x.val,) + tuple(t for c in x.S.pc or () for t, _ in c)) if
             t.op == "call" and callname(t) == "get_depth_quantization"}
        if len(q) != 1:
            return undecided(ctx, g, "quantization")
        qt = q.pop()
        g.b[qt] = sym("q")
        ctx.item(g.sid + ": the quantization is that of the tested depth")
        if not equal(g.alg().sc(qt.a[-1]), p):
            ctx.violation(g.sid + ":quantization", where(fn), "the quantization is not that of the tested depth")
        P = Pred(g)
        jump = le(absv(p - l), sym("q").scale(4))
        decide(ctx, g, None, "continuous", "continuous exactly when the depth is missing or within 4 quantizations of the last one",
               P.true(), Or(le(p, const(0)), jump))
        for x in g.exits:
            A = g.alg()
            for ch, (t,), pcs in cases(g, x.S, [g.out(x, 1)]):
                v = A.sc(t)
                w = And(P.reach(x), case_formula(P, x.S, pcs))
                if equal(v, p):
                    decide(ctx, g, x.node, "last", "the last depth advances only over continuous measures", w, And(gt(p, const(0)), jump), mode="implies")
                elif equal(v, l):
                    decide(ctx, g, x.node, "kept", "the last depth stays only over missing or discontinuous measures", w,
                           Or(le(p, const(0)), Not(jump)), mode="implies")
                else:
                    ctx.violation(g.sid + ":last", where(fn, x.node), "the last depth becomes %r" % v)
    # a patch is accepted only if both scans answered true
    fn = pick1(ctx, C + "init_plane_segment")
    g = Fx(ctx, fn, policy=NoFit())
    D = fields(ctx)
    for x in g.exits:
        if cval(self_read(x, D["planar"])) is False:
            continue
        for nme in ("is_cell_horizontal_continuous", "is_cell_vertical_continuous"):
            ctx.item("%s: planar patches passed %s" % (g.sid, nme))
            if not any(pol and t.op == "call" and callname(t) == nme for t, pol in x.S.facts.items()):
                ctx.violation("%s:%s" % (g.sid, nme), where(fn, x.node), "a patch can be planar although %s was not asked or said no" % nme)


def scans(ctx):
    """the two lines through a cell: every pixel of the line is compared with the last depth of the line"""
    for nme, down in (("is_cell_vertical_continuous", True), ("is_cell_horizontal_continuous", False)):
        for fn in pick(ctx, C + nme):
            scan(ctx, EF.effects(ctx, None, fn=fn, deny=("is_continuous",)), down)


def exact(t):
    """integer divisions without their rounding"""
    if not isinstance(t, T) or t.op in ("init", "n", "c", "phi"):
        return t
    a = [exact(x) for x in t.a]
    if t.op == "idiv":
        return mk("/", *a)
    if t.op in ("trunc", "floor") and len(a) == 1:
        return a[0]
    return mk(t.op, *a)


def number(v):
    """a constant's value"""
    for k in range(-4, 5):
        if equal(v, const(Fraction(k, 2))):
            return Fraction(k, 2)
    return None


def scan(ctx, g, down):
    what = "column" if down else "row"
    ctx.item("%s: the middle %s is compared pixel by pixel" % (g.sid, what))
    asked = [c for c in g.c if c.name == "is_continuous"]
    keys = {k for c in asked for k in c.open}
    if len({id(c.node) for c in asked}) != 1 or len(keys) != 1 or len(asked[0].args) != 2:
        if not asked:
            ctx.violation(g.sid + ":asked", where(g.fn), "no depth of the %s is compared with the one before" % what)
            return
        return undecided(ctx, g, "scan")
    c, key = asked[0], keys.pop()
    car = carried(g, key)

    def place(t):
        """index of the depth read"""
        if t is not None and t.op == "init" and len(t.a[0]) == 2 and t.a[0][0][:2] == ("o", "param") and isinstance(t.a[0][1], tuple) \
                and t.a[0][1][1] in ("at", "[]"):
            return t.a[0][1][2] if len(t.a[0][1]) == 3 else None
        return None
    i = place(c.args[0])
    idx = next(((h, a, b) for h, a, b in car.values() if h is i), None)
    last = next(((l, h, a, b) for l, (h, a, b) in car.items() if h is c.args[1]), None)
    if idx is None:
        if i is not None and not any(t.op in ("phi", "iter", "old", "oldsym") for t in closure(g.E, [i])):
            ctx.violation(g.sid + ":step", where(g.fn, c.node), "the same pixel is compared each time")
            return
        return undecided(ctx, g, "pixel compared")
    if last is None:
        first = c.args[1]
        if first is not None and first.op == "call" and callname(first) == "max":
            ctx.violation(g.sid + ":last", where(g.fn, c.node), "the depths of the %s are not compared with the last one" % what)
        else:
            undecided(ctx, g, "last depth")
        return
    loc, lh, start, nxt = last
    sz = {}
    for t in closure(g.E, [idx[1], idx[2]] + [t for x in g.exits for cube in x.S.pc or () for t, _ in cube]):
        if t.op == "init" and len(t.a[0]) == 1:
            for f in ("_cellWidth", "_cellHeight", "_ptsPerCellCount"):
                if str(t.a[0][0]).rstrip("')").endswith("::" + f):
                    sz[f] = t
                    g.b[t] = sym(f)
    W, N = sym("_cellWidth"), sym("_ptsPerCellCount")
    g.b[idx[0]] = sym("i")
    A = g.alg()
    try:
        F, step = A.sc(idx[1]), A.sc(idx[2]) - sym("i")
    except Shape as e:
        return undecided(ctx, g, "pixels (%s)" % e)
    ctx.item("%s: the next pixel of the %s is compared next" % (g.sid, what))
    if not equal(step, W if down else const(1)):
        (undecided(ctx, g, "step") if unknown_atoms(step) else ctx.violation(
            g.sid + ":step", where(g.fn, c.node), "the pixels compared are %r apart, not those of one %s" % (step, what)))
        return
    ctx.item("%s: the first depth is that of one of the first two pixels" % g.sid)
    ps = [place(t) for t in start.a[1:]] if start.op == "call" and callname(start) == "max" else [place(start)]
    if any(t is None for t in ps):
        undecided(ctx, g, "first depth")
    else:
        vs = [A.sc(t) for t in ps]
        # compared from the second pixel on (or from the first again)
        if len(vs) != 2 or not (equal(vs[0], vs[1] - step) or equal(vs[1], vs[0] - step)) or \
                not any(equal(F, v) for v in vs):
            ctx.violation(g.sid + ":first", where(g.fn), "the first depth is not that of the first two pixels of the %s" % what)
            return
        lo = vs[0] if equal(vs[0], vs[1] - step) else vs[1]
        ctx.item("%s: the whole %s is compared" % (g.sid, what))
        ends = set()
        for t in closure(g.E, [t for x in g.exits for cube in x.S.pc or () for t, _ in cube]):
            if t.op in ("<", "<=") and t.a[0] is idx[0]:
                ends.add((t.a[1], t.op))
        if len(ends) == 1:
            # up to the rounding of the middle, for square cells
            (e, op), = ends
            for f, v in (("_cellHeight", W), ("_ptsPerCellCount", W * W)):
                if f in sz:
                    g.b[sz[f]] = v
            A = g.alg()
            try:
                e, b = A.sc(exact(e)), A.sc(exact(ps[0] if lo is vs[0] else ps[1]))
                over = [e - w for w in ([W * W - b, W * W] if down else [b + W])]
            except Shape as x:
                over = [sym("?")] if undecided(ctx, g, "end of the line (%s)" % x) else [const(0)]
            for f in ("_cellHeight", "_ptsPerCellCount"):
                if f in sz:
                    g.b[sz[f]] = sym(f)
            if not any(abs(k) <= 1 for k in (number(o) for o in over) if k is not None) and not any(unknown_atoms(o) for o in over):
                ctx.violation(g.sid + ":end", where(g.fn), "the comparison does not end with the %s" % what)
        else:
            undecided(ctx, g, "end of the line")
        if not unknown_atoms(lo) and (equal(lo, const(0)) or equal(lo, W)):
            ctx.violation(g.sid + ":middle", where(g.fn), "the %s compared is not in the middle" % what)
    ctx.item("%s: each depth is compared with the last one" % g.sid)
    if nxt is lh:
        ctx.violation(g.sid + ":last", where(g.fn, c.node), "the last depth stays the first one")
    elif nxt.op != "out":
        undecided(ctx, g, "last depth")
    g.b[start] = sym("first")

    def hook(t):
        return opaque("continuous") if t.op == "call" and callname(t) == "is_continuous" else \
            opaque("within the line") if t.op in ("<", "<=") and t.a[0] is idx[0] else None
    P = EF.pred(g, hook=hook)
    jump = And(opaque("within the line"), Not(opaque("continuous")))
    yes = Or(*[And(P.pc(x.S.pc), P.term(x.val)) for x in g.exits])
    no = Or(*[And(P.pc(x.S.pc), Not(P.term(x.val))) for x in g.exits])
    decide(ctx, g, None, "yes", "a %s is continuous only when it has a first depth and no depth jumps" % what, yes,
           And(gt(sym("first"), const(0)), Not(jump)), mode="implies")
    decide(ctx, g, None, "no", "a %s is refused only without a first depth or when a depth jumps" % what, no,
           Or(le(sym("first"), const(0)), Not(opaque("continuous"))), mode="implies")


def shapes(ctx):
    N, Dd = getter(ctx, "primitives::Plane::get_normal"), getter(ctx, "primitives::Plane::get_d")
    for fn in pick(ctx, "primitives::Plane::is_distance_similar"):
        g = Fx(ctx, fn)
        a, b = sym("a"), sym("b")
        g.b[g.this(*Dd)] = a
        other(ctx, g, Dd, b)
        mx = param(ctx, "maximumDistanceForPlaneMatch_mm")
        if mx is None:
            continue
        decide(ctx, g, None, "distance%s" % len(fn.params[0]["t"]), "planes are close exactly when |d - d'| < the configured maximum", Pred(g).true(),
               lt(absv(a - b), const(mx)), nan=True)
    for fn in pick(ctx, "primitives::Plane::is_normal_similar") + pick(ctx, "primitives::Cylinder::is_similar"):
        g = Fx(ctx, fn)
        a, b = vecn("a", 3), vecn("b", 3)
        cyl = "Cylinder" in fn.qn
        n = ("_normal",) if cyl else N
        g.b[g.this(*n)] = a
        if cyl:
            g.b[g.par(0, *n)] = b
        else:
            other(ctx, g, N, b)
        P = Pred(g)
        cs = {t for x in g.exits for t in subterms((x.val,) + tuple(t for c in x.S.pc or () for t, _ in c)) if t.op == "call" and callname(t) == "cos"}
        if len(cs) != 1:
            undecided(ctx, g, "angle limit")
            continue
        ct = cs.pop()
        k = g.alg().sc(ct.a[-1]).const()
        v = param(ctx, "maximumAngleForPlaneMatch_d")
        ctx.item(g.sid + ": the limit angle is the configured one")
        if k is not None and v is not None and abs(float(k) - v * 3.141592653589793 / 180) > 1e-9:
            ctx.violation(g.sid + ":angle", where(fn), "the limit angle is %g rad, not %g degrees" % (float(k), v))
        decide(ctx, g, None, "normal%s" % len(fn.params[0]["t"]), "directions are similar exactly when |cos| > |cos(limit)|", P.true(),
               gt(absv(dot(a, b)), absv(P.A.sc(ct))), nan=True)


def other(ctx, g, path, v):
    """binds the component at path of the other plane, whichever of the two forms the parameter has"""
    g.b[g.par(0, *path)] = v
    g.b[g.par(0, *path[1:])] = v


def copies(ctx):
    D = fields(ctx)
    rec = next(r for r in ctx.prog.records.values() if r["qn"].endswith("::Plane_Segment"))
    for fn in pick(ctx, C + "Plane_Segment", lambda f: len(f.params) == 1):
        g = Fx(ctx, fn, distinct=True)
        for x in g.exits:
            A = g.alg()
            for f in rec["fields"]:
                if f.get("stat"):
                    continue
                if f["n"] == tuple(D["normal"])[0]:
                    continue     # planes are P06
                compare(ctx, g, x, f["n"], "a copy has the same %s" % f["n"], lambda: A.ev(self_read(x, (f["n"],))), lambda: A.ev(g.par(0, f["n"])))
