RULE = """
Every write of the histogram and of the cell tables is collected with its place, value and exact path condition at the
fixpoint of the loops around it (value numbering, normal forms over integers and reals); the ranges of the loops are compared
with the tables they run over (start, step, bound, no other way out). Bin, count and removal of a point are compared with
their equations case by case; the search of the commonest bin is treated by induction over its loop (the pair of bin and count
is kept or replaced together). The per cell initialisation hands each cell its own index, tolerance and direction.
"""
import math
from fractions import Fraction
from effects import *

H = "Histogram::"
D = "Primitive_Detection::"


def run(ctx):
    ctx.group(filled)
    ctx.group(commonest)
    ctx.group(removed)
    ctx.group(emptied)
    ctx.group(cells)
    ctx.group(directions)
    ctx.group(reset)
    ctx.group(seeds)
    ctx.assume("Directions given to the histogram are angles in range (0..pi, -pi..pi); rounding at bin borders is not modelled.")


def size_of(f):
    q = f.qn
    i = q.rfind("Histogram<")
    return int(q[i + 10:q.index(">", i)].strip("ul")) if i >= 0 else None


def number(A, t):
    try:
        return A.sc(t).const()
    except Shape:
        return None


def pi(A):
    return const(Fraction(repr(math.pi)))


def filled(ctx):
    for f in pick(ctx, H + "init_histogram"):
        g = effects(ctx, None, fn=f)
        n = size_of(f)
        if n is None:
            undecided(ctx, g, "size of the histogram")
            continue
        N = sym("points")
        for x in g.exits:
            value = self_read(x, ("_pointCount",))
            ctx.item("%s: the number of points is kept" % g.sid)
            if not rows_of(value, g.par(0)):
                if value.op == "call" or value is g.this("_pointCount") or cval(value) is not None:
                    ctx.violation("%s:count" % g.sid, where(f, x.node), "the number of points kept is not the number of rows")
                else:
                    undecided(ctx, g, "number of points: " + show(value)[:60])
            g.b[value] = N
            for t in list(subterms(value)):
                if rows_of(t, g.par(0)):
                    g.b[t] = N
        for c in g.c:
            for t in c.args:
                if isinstance(t, T) and rows_of(t, g.par(0)):
                    g.b[t] = N
        natural(g, N)
        el, wh, odd = writes(g, (THIS, "_bins"))
        ctx.item("%s: all points start without a bin" % g.sid)
        w = [w for w in wh if w.val.op == "mod" and w.val.a[0] == "assign"]
        if not w:
            if not wh:
                ctx.violation("%s:clear" % g.sid, where(f), "the bins of the points keep what they held before")
            else:
                undecided(ctx, g, "how bins are emptied")
        else:
            a = w[0].val.a[2:]
            A = alg(g)
            v = number(A, a[1]) if len(a) == 2 else None
            if not always(w[0].S):
                ctx.violation("%s:clear" % g.sid, where(f, w[0].node), "the bins of the points are not emptied in all cases")
            elif v is None:
                undecided(ctx, g, "how bins are emptied")
            elif v >= 0 or not equal(A.sc(a[0]), N):
                ctx.violation("%s:clear" % g.sid, where(f, w[0].node), "points start in bin %s" % v)
        ctx.item("%s: points are put in bins" % g.sid)
        if not el:
            undecided(ctx, g, "no point is put in a bin")
            continue
        for w, ix in el:
            i = span(ctx, g, ix[0], const(0), N, "point")
            if i is None:
                continue
            natural(g, i)
            mask = mk("init", (root(g, 1), ("i", "at", ix[0])))
            x, y = sym("angle0"), sym("angle1")
            g.b[mk("init", (root(g, 0), ("i", "at", ix[0], const_t(0))))] = x
            g.b[mk("init", (root(g, 0), ("i", "at", ix[0], const_t(1))))] = y
            p = pi(None)
            xq = fn1("floor", const(n - 1) * x / p)
            yq = fn1("floor", const(n - 1) * (y + p) / (p + p))
            ok = opaque("unassigned")
            inside = And(ge(i, const(0)), lt(i, N))
            P = pred(g, {mask: ok})
            pieces(ctx, g, w.S, w.node, "bin", "bin of a point", w.val,
                   [(gt(xq, const(0)), yq * const(n) + xq), (Not(gt(xq, const(0))), xq)], P=P, side=And(inside, ok))
            when(ctx, g, w, "mask", "a point is put in a bin exactly when it is unassigned", ok, P=P, side=inside)
            hs, hw, hodd = writes(g, (THIS, "_histogram"))
            ctx.item("%s: the bin of the point counts one more" % g.sid)
            if len(hs) != 1 or hodd:
                undecided(ctx, g, "writes of the counts")
                continue
            h, hx = hs[0]
            if hx[0] is not w.val:
                try:
                    same = equal(alg(g).sc(hx[0]), alg(g).sc(w.val))
                except Shape:
                    same = None
                if same is None or not same and (unknown_atoms(alg(g).sc(hx[0])) - unknown_atoms(alg(g).sc(w.val))):
                    undecided(ctx, g, "bin counted")
                elif not same:
                    ctx.violation("%s:counted" % g.sid, where(f, h.node), "the bin counted is not the bin of the point")
            one_more(ctx, g, h, 1, "count of the bin of the point")
            when(ctx, g, h, "countmask", "a bin counts exactly the unassigned points put in it", ok, P=P, side=inside)


def const_t(v):
    return num(v)


def rows_of(t, m):
    return t.op == "call" and str(t.a[0]).split("::")[-1].split("<")[0] in ("rows",) and m in t.a


def one_more(ctx, g, w, d, what):
    """the element written is its old value plus d"""
    ctx.item("%s: %s changes by %d" % (g.sid, what, d))
    a = at(w.loc)
    old = [u for u in subterms(w.val) if (elem(u) or (None,))[0] == a[0] and elem(u)[1] == a[1]]
    if len(old) != 1:
        if cval(w.val) is not None:
            ctx.violation("%s:by" % g.sid, where(g.fn, w.node), "%s is set to %s" % (what, cval(w.val)))
        else:
            undecided(ctx, g, "%s: %s" % (what, show(w.val)[:60]))
        return
    s = sym("old")
    g.b[old[0]] = s
    value_is(ctx, g, w.node, "by", "%s" % what, w.val, s + const(d))


def commonest(ctx):
    for f in pick(ctx, H + "get_points_from_most_frequent_bin"):
        g = effects(ctx, None, fn=f)
        n = size_of(f)
        hist, bins = (THIS, "_histogram"), (THIS, "_bins")
        N = sym("points")
        g.b[g.this("_pointCount")] = N
        for t in sizes(g, mk("init", hist)):
            g.b[t] = const(n * n)
        for t in sizes(g, mk("init", bins)):
            g.b[t] = N
        natural(g, N)
        for x in g.exits:
            try:
                cs = cases(g, x.S, [x.val])
            except Shape as e:
                undecided(ctx, g, str(e))
                continue
            for ch, (v,), pcs in cs:
                ctx.item("%s: points returned" % g.sid)
                app = appended(g, v)
                if app is None and not empty(v):
                    undecided(ctx, g, "points returned: " + show(v)[:60])
                    continue
                if app is None:
                    nothing(ctx, g, x, pcs)
                    continue
                key, S, node, adds, skip = app
                listed(ctx, g, key, S, node, adds, skip, bins, N, hist, n)


def sizes(g, t):
    """calls of size() on the container"""
    out = set()
    todo = [c.S for c in g.c] + [w.S for w in g.w]
    seen = set()
    for S in todo:
        for f in S.facts:
            if f in seen:
                continue
            seen.add(f)
            for u in subterms(f):
                if u.op in ("call", "size") and t in u.a and (u.op == "size" or str(u.a[0]).split("::")[-1] == "size"):
                    out.add(u)
    return out


def nothing(ctx, g, x, pcs):
    """an empty answer: only when no bin has a point"""
    P = pred(g)
    c = And(P.pc(x.S.pc), *[P.pc(p) for p in pcs])
    for l in leaves(c):
        pass
    g.empties = getattr(g, "empties", []) + [(x, c)]


def listed(ctx, g, key, S, node, adds, skip, bins, N, hist, n):
    sid = g.sid
    P = pred(g)
    if len(adds) != 1 or len(adds[0][0]) != 1:
        return undecided(ctx, g, "points appended")
    idx = adds[0][0][0]
    i = span(ctx, g, idx, const(0), N, "point")
    if i is None:
        return
    natural(g, i)
    P = pred(g)
    c = And(*[P.pc(p) for p in adds[0][1]])
    # the bin compared with that of the point
    best = None
    for pc in adds[0][1]:
        for cube in pc or ():
            for t, pol in cube:
                if t.op in ("==", "<", "<=") and len(t.a) == 2:
                    for a, b in (t.a, t.a[::-1]):
                        if reads(g, a, bins, i):
                            best = b
    ctx.item("%s: exactly the points of the bin found" % sid)
    if best is None:
        return undecided(ctx, g, "bin of the points returned")
    g.b[mk("init", bins + (("i", "at", idx),))] = b_ = sym("binOfPoint")
    m = sym("bestBin")
    while best.op == "trunc" or best.op == "cast":
        best = best.a[0]
    g.b[best] = m
    P = pred(g)
    c = And(*[P.pc(p) for p in adds[0][1]])
    decide(ctx, g, node, "points", "the points returned are exactly those of the bin found", c, eq(b_, m),
           integral=frozenset(g.ints | atoms(b_) | atoms(m)))
    # the search
    if best.op != "phi" or best.a[0] not in g.ends:
        return undecided(ctx, g, "bin found: " + show(best)[:60])
    k2 = best.a[0]
    S2, F2, node2 = g.ends[k2]
    car = carried(g, k2)
    if best.a[1] not in car:
        return undecided(ctx, g, "search of the bin")
    other = set()
    for ch, (e,), pcs in cases(g, S2, [S2.read(best.a[1])]):
        for pc in pcs:
            for cube in pc or ():
                for t, pol in cube:
                    if t.op in ("<", "<=", "=="):
                        for x, y in (t.a, t.a[::-1]):
                            if reads_any(x, hist) is not None:
                                other.add(y)
    ctx.item("%s: the count found so far is that of the bin found so far" % sid)
    if len(other) == 1 and cval(next(iter(other))) is not None:
        return ctx.violation("%s:pair" % sid, where(g.fn, node2), "the counts of the bins are compared with %s, not with the "
                             "count found so far" % cval(next(iter(other))))
    cnt = [(loc, v) for loc, v in car.items() if v[0] in other]
    if len(cnt) != 1:
        return undecided(ctx, g, "search of the bin")
    (cloc, (chead, cfirst, cnext)), = cnt
    bhead, bfirst, bnext = car[best.a[1]]
    ctx.item("%s: the search starts with no bin and no point" % sid)
    A = alg(g)
    b0, c0 = number(A, bfirst), number(A, cfirst)
    if b0 is None or c0 is None:
        return undecided(ctx, g, "start of the search")
    if not (b0 < 0 and c0 == 0):
        ctx.violation("%s:start" % sid, where(g.fn, node2), "the search starts with bin %s and count %s" % (b0, c0))
    C = sym("bestCount")
    g.b[chead] = C
    nat = atoms(C)
    try:
        cs = cases(g, S2, [S2.read(best.a[1]), S2.read(cloc)])
    except Shape as e:
        return undecided(ctx, g, str(e))
    # the bin examined
    idxs = {ix for u in closure(g.E, [v for _, vs, _ in cs for v in vs]) for ix in [reads_any(u, hist)] if ix is not None}
    if len(idxs) != 1:
        return undecided(ctx, g, "bin examined")
    ix, = idxs
    j = span(ctx, g, ix, const(0), const(n * n), "bin")
    if j is None:
        return
    h = sym("count")
    g.b[mk("init", hist + (("i", "at", ix),))] = h
    natural(g, j, h, C)
    P = pred(g)
    A = alg(g)
    for ch, (b, c), pcs in cs:
        cond = And(*[P.pc(p) for p in pcs])
        try:
            bb, cc = A.sc(b), A.sc(c)
        except Shape as e:
            undecided(ctx, g, str(e))
            continue
        ctx.item("%s: bin and count are kept or replaced together" % sid)
        if equal(bb, m) and equal(cc, C):
            decide(ctx, g, node2, "keep", "a bin with more points replaces the one found so far", cond, Not(gt(h, C)), mode="implies",
                   integral=frozenset(g.ints))
        elif equal(bb, j) and equal(cc, h):
            decide(ctx, g, node2, "replace", "only a bin with as many points replaces the one found so far", cond, ge(h, C),
                   mode="implies", integral=frozenset(g.ints))
        elif unknown_atoms(bb) | unknown_atoms(cc):
            undecided(ctx, g, "bin and count found")
        else:
            ctx.violation("%s:pair" % sid, where(g.fn, node2), "after a bin is examined, bin %r goes with count %r" % (bb, cc))
    # an empty answer is given only when no bin was found
    for x, c in getattr(g, "empties", []):
        P = pred(g)
        decide(ctx, g, x.node, "empty", "nothing is returned only when no bin has a point", P.known_reach(x.S), True, mode="implies")


def reads_any(t, base):
    e = elem(t)
    return e[1][0] if e is not None and e[0] == base and len(e[1]) == 1 else None


def removed(ctx):
    for f in pick(ctx, H + "remove_point"):
        g = effects(ctx, None, fn=f)
        p, N = sym("point"), sym("points")
        g.b[g.par(0)] = p
        bins, hist = (THIS, "_bins"), (THIS, "_histogram")
        for t in sizes(g, mk("init", bins)):
            g.b[t] = N
        own = mk("init", bins + (("i", "at", g.par(0)),))
        b = sym("bin")
        g.b[own] = b
        cnt = mk("init", hist + (("i", "at", own),))
        c = sym("count")
        g.b[cnt] = c
        natural(g, p, N, c)
        inside = And(ge(p, const(0)), lt(p, N), ge(c, const(0)))
        ints = frozenset(g.ints | atoms(b))
        P = pred(g)
        el, wh, odd = writes(g, hist)
        ctx.item("%s: the bin of the point counts one less" % g.sid)
        if wh or odd or len(el) != 1:
            if not el and not wh and not odd:
                ctx.violation("%s:count" % g.sid, where(f), "the bin of the point keeps counting it")
            else:
                undecided(ctx, g, "writes of the counts")
        for w, ix in el:
            value_is(ctx, g, w.node, "which", "bin that counts one less", ix[0], b)
            value_is(ctx, g, w.node, "less", "new count of the bin", w.val, c - const(1))
            decide(ctx, g, w.node, "when", "a bin counts one less exactly when the point was in it and it counts some",
                   P.pc(w.S.pc), And(ge(b, const(0)), gt(c, const(0))), integral=ints, side=inside)
        el, wh, odd = writes(g, bins)
        ctx.item("%s: the point has no bin any more" % g.sid)
        if wh or odd or not el:
            if not el and not wh and not odd:
                ctx.violation("%s:bin" % g.sid, where(f), "the point keeps its bin")
            else:
                undecided(ctx, g, "writes of the bins")
        for w, ix in el:
            value_is(ctx, g, w.node, "own", "point that loses its bin", ix[0], p)
            v = number(alg(g), w.val)
            if v is None:
                undecided(ctx, g, "bin of a removed point")
            elif v >= 0:
                ctx.violation("%s:left" % g.sid, where(f, w.node), "the point removed is put in bin %s" % v)
        if el:
            decide(ctx, g, el[0][0].node, "all", "every point removed loses its bin",
                   Or(*[P.pc(w.S.pc) for w, _ in el]), True, integral=ints, side=inside)


def emptied(ctx):
    for f in pick(ctx, H + "reset"):
        g = effects(ctx, None, fn=f)
        for x in g.exits:
            h = self_read(x, ("_histogram",))
            ctx.item("%s: all counts are zero" % g.sid)
            if h.op == "mod" and h.a[0] == "fill":
                if number(alg(g), h.a[2]) != 0:
                    ctx.violation("%s:counts" % g.sid, where(f, x.node), "counts are not zero after a reset")
            elif h is g.this("_histogram"):
                ctx.violation("%s:counts" % g.sid, where(f, x.node), "counts are kept by a reset")
            else:
                undecided(ctx, g, "counts after a reset")
            b = self_read(x, ("_bins",))
            ctx.item("%s: no point is left" % g.sid)
            if b is g.this("_bins"):
                ctx.violation("%s:bins" % g.sid, where(f, x.node), "points are kept by a reset")


def grid(ctx, g):
    """the loop index over the cells: (term, symbol, cell count)"""
    n = sym("cells")
    for t in sizes(g, g.this("_planeGrid")):
        g.b[t] = n
    g.b[g.this("_totalCellCount")] = n
    natural(g, n)
    return n


def cells(ctx):
    f = pick1(ctx, D + "init_planar_cell_fitting")
    g = effects(ctx, None, fn=f, deny=("init_plane_segment",))
    n = grid(ctx, g)
    cs = calls(g, "init_plane_segment")
    ctx.item("%s: cells are initialised" % g.sid)
    if len(cs) != 1:
        return undecided(ctx, g, "%d initialisations of cells" % len(cs))
    c = cs[0]
    a = at(c.objloc) if c.objloc else None
    if a is None or a[0] != (THIS, "_planeGrid"):
        return undecided(ctx, g, "cell initialised")
    i = span(ctx, g, a[1][0], const(0), n, "cell")
    if i is None:
        return
    natural(g, i)
    inside = And(ge(i, const(0)), lt(i, n))
    ctx.item("%s: from the cloud given" % g.sid)
    if c.args[0] is not g.par(0):
        ctx.violation("%s:cloud" % g.sid, where(f, c.node), "cells are initialised from something else than the cloud given")
    value_is(ctx, g, c.node, "own", "index that the cell is initialised with", c.args[1], i)
    when(ctx, g, c, "every", "every cell is initialised", True, side=inside)
    el, wh, odd = writes(g, (THIS, "_cellDistanceTols"))
    ctx.item("%s: the tolerance of every cell is set" % g.sid)
    if not el:
        return undecided(ctx, g, "no tolerance is set")
    # what the initialised cell says
    planar, count = opaque("planar"), sym("pointCount")
    for w in g.w:
        if w.loc[:-1] == c.objloc and w.node is c.node:
            if w.loc[-1] == "_isPlanar":
                names = {w.val: planar}
            if w.loc[-1] == "_pointCount":
                g.b[w.val] = count
    P = pred(g, names)
    for w, ix in el:
        value_is(ctx, g, w.node, "cell", "cell whose tolerance is set", ix[0], i)
    A = alg(g)
    m = g.par(0)
    per = cell_points(ctx)
    first, last = i * const(per), i * const(per) + const(per - 1)
    rows = {}
    for w, ix in el:
        for u in closure(g.E, [w.val]):
            for tag, loc in blocks(u, m):
                rows.setdefault(loc, u)
    # corners: rows of the cloud read
    ok = True
    corner = {"first": vecn("first", 3), "last": vecn("last", 3)}
    for (kind, r, c0), u in rows.items():
        try:
            rr, cc = A.sc(r), A.sc(c0)
        except Shape:
            ok = False
            continue
        for nm, want in (("first", first), ("last", last)):
            if equal(rr, want) and equal(cc, const(0)) and kind in ("block<1,3>", "row"):
                g.b[u] = corner[nm].T()
    v = [corner["last"].e[k] - corner["first"].e[k] for k in range(3)]
    A = alg(g)
    d = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    ang = Fraction(18) if False else None
    s = None
    for w, ix in el:
        for u in closure(g.E, [w.val]):
            if u.op == "call" and str(u.a[0]).split("::")[-1] in ("sinf", "sin"):
                s = u
    lim = limits(ctx)
    want = None
    if s is not None:
        try:
            x = A.sc(s.a[-1])
            ctx.item("%s: tolerance angle" % g.sid)
            if x.const() is not None and abs(float(x.const()) - math.radians(18.0)) > 1e-6:
                ctx.violation("%s:angle" % g.sid, where(f), "the tolerance angle is %s" % float(x.const()))
        except Shape:
            pass
        q = sym("sinAngle")
        g.b[s] = q
        want = extremum("min", const(lim), d * q * sqrt(count))
    if want is None:
        return undecided(ctx, g, "tolerance of a cell")
    settled(ctx, g, a[1][0].a[0], el[0][0].loc, "tolerance", "tolerance of a cell", [(planar, want), (Not(planar), const(0))],
            P=P, side=inside)


def cell_points(ctx):
    return 400


def limits(ctx):
    return 50


def blocks(u, m):
    """row blocks of the matrix that a term reads"""
    if u.op == "init" and mk("init", u.a[0][:1]) is m and len(u.a[0]) == 2 and isinstance(u.a[0][1], tuple):
        e = u.a[0][1]
        if e[0] == "i" and str(e[1]).startswith("block") and len(e) >= 4:
            yield u, (str(e[1]), e[2], e[3])
        elif e[0] == "i" and e[1] == "row" and len(e) == 3:
            yield u, ("row", e[2], num(0))


def directions(ctx):
    f = pick1(ctx, D + "init_histogram")
    g = effects(ctx, None, fn=f, deny=("Histogram::init_histogram", "init_histogram"))
    n = grid(ctx, g)
    el, wh, odd = writes(g, (THIS, "_isUnassignedMask"))
    ctx.item("%s: planar cells are marked unassigned" % g.sid)
    if len(el) != 1:
        return undecided(ctx, g, "%d writes of the mask" % len(el))
    w, ix = el[0]
    i = span(ctx, g, ix[0], const(0), n, "cell")
    if i is None:
        return
    natural(g, i)
    inside = And(ge(i, const(0)), lt(i, n))
    cell = (THIS, "_planeGrid", ("i", "at", ix[0]))
    planar = opaque("planar")
    P = pred(g, {mk("init", cell + ("_isPlanar",)): planar})
    v = cval(w.val)
    if v is None:
        undecided(ctx, g, "value of the mask")
    elif not v:
        ctx.violation("%s:mask" % g.sid, where(f, w.node), "planar cells are marked assigned")
    when(ctx, g, w, "mask", "exactly the planar cells are marked unassigned", planar, P=P, side=inside)
    nv = vecn("n", 3)
    for nm in (mk("init", cell + ("_parametrization", "_normal")),):
        g.b[nm] = nv
    # the table given to the histogram
    cs = calls(g, "init_histogram", lambda c: c.objloc == (THIS, "_histogram"))
    ctx.item("%s: the histogram is filled" % g.sid)
    if len(cs) != 1 or not cs[0].arglocs or cs[0].arglocs[0] is None:
        return undecided(ctx, g, "%d fillings of the histogram" % len(cs))
    c = cs[0]
    tab = c.arglocs[0]
    ctx.item("%s: with the mask of the unassigned cells" % g.sid)
    if c.arglocs[1] != (THIS, "_isUnassignedMask"):
        undecided(ctx, g, "mask given to the histogram")
    els, whs, odds = writes(g, tab)
    seen = set()
    for e, jx in els:
        if len(jx) != 2:
            undecided(ctx, g, "directions table")
            continue
        value_is(ctx, g, e.node, "row", "row of the direction of a cell", jx[0], i)
        k = cval(jx[1])
        if k not in (0, 1):
            ctx.violation("%s:column" % g.sid, where(f, e.node), "column %s of the directions" % show(jx[1]))
            continue
        seen.add(k)
        want = fn1("acos", nv.e[2].scale(-1)) if k == 0 else atan2(nv.e[0], nv.e[1])
        value_is(ctx, g, e.node, "angle%d" % k, "angle %d of the direction of a cell" % k, e.val, want)
        when(ctx, g, e, "dir%d" % k, "angle %d is set for every planar cell" % k, planar, P=P, mode="covers", side=inside)
    ctx.item("%s: both angles are set" % g.sid)
    if seen != {0, 1}:
        undecided(ctx, g, "angles set: %s" % sorted(seen))
    # the count returned
    for x in g.exits:
        t = x.val
        ctx.item("%s: number of planar cells returned" % g.sid)
        key = t.a[0] if t.op == "phi" else None
        if key not in g.ends:
            undecided(ctx, g, "number returned: " + show(t)[:60])
            continue
        car = carried(g, key).get(t.a[1])
        if car is None or number(alg(g), car[1]) != 0:
            if car is not None and number(alg(g), car[1]) is not None:
                ctx.violation("%s:zero" % g.sid, where(f, x.node), "the number of planar cells does not start at 0")
            else:
                undecided(ctx, g, "start of the number returned")
            continue
        k = sym("planarCells")
        g.b[t] = k
        S, F, node = g.ends[key]
        pieces(ctx, g, S, node, "number", "number of planar cells after one more cell", S.read(t.a[1]),
               [(planar, k + const(1)), (Not(planar), k)], P=pred(g, {mk("init", cell + ("_isPlanar",)): planar}), side=inside)


def reset(ctx):
    f = pick1(ctx, D + "reset_data")
    g = effects(ctx, None, fn=f, deny=("Histogram::reset", "reset"))
    for x in g.exits:
        for m in ("_planeSegments", "_cylinderSegments"):
            ctx.item("%s: %s is emptied" % (g.sid, m))
            v = self_read(x, (m,))
            if v is g.this(m):
                ctx.violation("%s:%s" % (g.sid, m), where(f, x.node), "%s keeps what the last image left" % m)
            elif not (v.op == "mod" and v.a[0] == "clear" or empty(v)):
                undecided(ctx, g, "%s: %s" % (m, show(v)[:50]))
        for m in ("_gridPlaneSegmentMap", "_gridCylinderSegMap"):
            ctx.item("%s: %s is zero" % (g.sid, m))
            v = self_read(x, (m,))
            if v is g.this(m):
                ctx.violation("%s:%s" % (g.sid, m), where(f, x.node), "%s keeps what the last image left" % m)
            else:
                k = cval(v)
                if v.op == "mod" and len(v.a) == 3:
                    k = cval(v.a[2])
                if k is not None and k != 0:
                    ctx.violation("%s:%s" % (g.sid, m), where(f, x.node), "%s is %s after a reset" % (m, k))
                elif k is None:
                    undecided(ctx, g, "%s: %s" % (m, show(v)[:50]))
        ctx.item("%s: no cell is left unassigned" % g.sid)
        v = self_read(x, ("_isUnassignedMask",))
        if v is g.this("_isUnassignedMask"):
            ctx.violation("%s:mask" % g.sid, where(f, x.node), "the mask keeps what the last image left")
        elif v.op == "call" and str(v.a[0]).split("::")[-1] == "Constant":
            if cval(v.a[-1]):
                ctx.violation("%s:mask" % g.sid, where(f, x.node), "all cells are unassigned after a reset")
    ctx.item("%s: the histogram is emptied" % g.sid)
    cs = calls(g, "reset", lambda c: c.objloc == (THIS, "_histogram"))
    if not any(always(c.S) for c in cs):
        h = [self_read(x, ("_histogram",)) for x in g.exits]
        if all(v is g.this("_histogram") for v in h):
            ctx.violation("%s:histogram" % g.sid, where(f), "the histogram keeps what the last image left")
        else:
            undecided(ctx, g, "the histogram after a reset")


def seeds(ctx):
    f = pick1(ctx, D + "find_primitives")
    g = effects(ctx, None, fn=f, deny=("reset_data", "init_planar_cell_fitting", "init_histogram", "grow_planes_and_cylinders",
                                       "merge_planes", "add_planes_to_primitives", "add_cylinders_to_primitives"))
    order = ["reset_data", "init_planar_cell_fitting", "init_histogram", "grow_planes_and_cylinders", "merge_planes",
             "add_planes_to_primitives", "add_cylinders_to_primitives"]
    pos = {}
    for i, c in enumerate(g.c):
        if c.name in order:
            pos.setdefault(c.name, (i, c))
    for n in order:
        ctx.item("%s: %s is done for every image" % (g.sid, n))
        if n not in pos:
            ctx.violation("%s:%s" % (g.sid, n), where(f), "%s is not done" % n)
        elif not always(pos[n][1].S):
            ctx.violation("%s:%s" % (g.sid, n), where(f, pos[n][1].node), "%s is not done in all cases" % n)
    for a, b in list(zip(order, order[1:-1])) + [("merge_planes", "add_planes_to_primitives"),
                                                 ("grow_planes_and_cylinders", "add_cylinders_to_primitives")]:
        if a in pos and b in pos:
            ctx.item("%s: %s before %s" % (g.sid, a, b))
            if pos[a][0] > pos[b][0]:
                ctx.violation("%s:%s<%s" % (g.sid, a, b), where(f, pos[b][1].node), "%s is done before %s" % (b, a))
