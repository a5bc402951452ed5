RULE = """
Cylinder fitting, from value numbers with exact path conditions. Tables of normals and centroids are followed write by write; the
triplet solution, the distance of a cell and the least squares solution are compared with the specification as rational functions
(identity testing at exact rational points where the expanded form is too large); the best hypothesis, the cells left and the lists
that describe a cylinder are decided case by case over the loops that fill them.
"""
import os
import random
import re
import struct
from fractions import Fraction
from effects import *
from p22 import short, param, mine, once
from facts import REPO

CY = "primitives::Cylinder_Segment::"
ADD = ("push_back", "emplace_back")


def run(ctx):
    for f in (hypothesis, fit, distance, nearest, getters, copies, drawn):
        ctx.group(f)
    ctx.assume("The eigen decomposition is Eigen's: ascending eigenvalues, orthonormal eigenvectors.")
    ctx.assume("The early stop of the search of hypotheses is not claimed to happen at a given number of inliers.")


def parameter(ctx, name):
    """a single precision constant of the parameters"""
    p = os.path.join(REPO, "src/parameters.hpp")
    try:
        m = re.search(r"float\s+%s\s*(?:=|\{)\s*([0-9.eE+-]+)" % name, open(p).read())
    except OSError:
        return None
    return Fraction(repr(struct.unpack("f", struct.pack("f", float(m.group(1))))[0])) if m else None


def vary(n):
    rnd = random.Random(n)
    return lambda: M(3, 1, [const(Fraction(rnd.randint(-90, 90), rnd.choice((7, 11, 13)))) for _ in range(3)])


def index_of(t, base):
    """(kind, index) when t reads a column or an element of the table at base"""
    if t.op == "init" and t.a[0][:len(base)] == base and len(t.a[0]) == len(base) + 1 and isinstance(t.a[0][-1], tuple):
        e = t.a[0][-1]
        if e[0] == "i" and len(e) == 3 and isinstance(e[2], T):
            return e[1], e[2]
        if e[:2] == ("i", "block<3,1>") and len(e) == 4 and cval(e[2]) == 0:
            return "col", e[3]
    return None


def all_terms(g):
    ts = []
    for x in g.w:
        if x.val is not None:
            ts.append(x.val)
        ts += [t for cube in (x.S.pc or ()) for t, _ in cube]
    for x in g.c:
        ts += [a for a in x.args if a is not None]
        ts += [t for cube in (x.S.pc or ()) for t, _ in cube]
    for x in g.exits:
        if x.val is not None:
            ts.append(x.val)
        ts += [t for cube in (x.S.pc or ()) for t, _ in cube]
    for key in g.ends:
        for h, a, b in carried(g, key).values():
            ts += [a, b]
    return closure(g.E, ts)


def within_loop(g, P, key, entry=None):
    """only the conditions decided inside an iteration of the loop: what holds whenever it is executed is left out (in a loop over
    all cells: what depends on the index only; else what holds at the effect entry)"""
    S = entry.S if entry is not None else g.ends[key][0]
    cubes = list(S.pc or ())
    common = set(cubes[0]).intersection(*cubes[1:]) if cubes else set()
    if entry is None:
        ix = g.spans[key][0]
        common = {(t, p) for t, p in common if t.op in ("<", "<=", "==") and ix in t.a and not any(
            u.op == "phi" and u.a[0] == key and u is not ix for u in subterms(t))}
    orig = P.pc

    def pc(cs, *more):
        if cs is None:
            return orig(cs, *more)
        return orig(frozenset(frozenset((t, p) for t, p in cube if key in t._ls and (t, p) not in common) for cube in cs), *more)
    P.pc = pc
    return P


def steps(ctx, g, t, lo, hi, what):
    """the loop over the cells; False if undecided"""
    s = sym(what)
    natural(g, s)
    return span(ctx, g, t, lo, hi, what, s)


# ------------------------------------------------------------------ one search of a cylinder
def hypothesis(ctx):
    g = effects(ctx, CY + "run_ransac_loop", deny=("get_random_uint",))
    limit = parameter(ctx, "cylinderRansacSqrtMaxDistance")
    if limit is None:
        return undecided(ctx, g, "greatest distance of an inlier")
    N, Ce, ids, mask, out = [(root(g, i),) for i in (2, 3, 1, 4, 5)]
    n = sym("cells")
    left = sym("cells left")
    g.b[mine(g, "_cellActivatedCount")] = n
    natural(g, n, left)
    ts = all_terms(g)
    for t in ts:
        if short(t) == "size" and len(t.a) > 1 and t.a[1].op == "init" and t.a[1].a[0] == ids:
            g.b[t] = left
    # the list of inliers of a hypothesis
    push = [c for c in g.c if c.name in ADD and len(c.open) == 2 and c.objloc is not None]
    ctx.item("%s: the inliers of each hypothesis are listed" % g.sid)
    if len({id(c.node) for c in push}) != 1:
        return undecided(ctx, g, "list of the inliers")
    c = push[-1]
    ik = max(c.open, key=lambda k: len(g.h.around.get(k, ())))
    ok_ = [k for k in c.open if k != ik][0]
    i = c.args[0]
    S, F, node = g.ends[ik]
    if i.op == "phi" and i.a[0] == ik:
        if steps(ctx, g, i, const(0), n, "cell") is None:
            return
    else:
        if elem(i) is not None and elem(i)[0] == ids:
            return ctx.violation("%s:listed" % g.sid, where(g.fn, c.node), "the cell listed is not the one whose distance is computed")
        return undecided(ctx, g, "cell listed")
    lst = c.objloc
    h = carried(g, ik).get(lst)
    ctx.item("%s: the list of inliers is empty before each hypothesis is tried" % g.sid)
    if h is None:
        return undecided(ctx, g, "list of inliers")
    if not empty(h[1]) and not (h[1].op == "mod" and h[1].a[0] == "clear"):
        if h[1].op == "phi" and h[1].a[0] == ok_:
            ctx.violation("%s:list" % g.sid, where(g.fn, c.node), "the inliers of the hypotheses before are kept in the list")
        else:
            return undecided(ctx, g, "first list")
    # ids drawn, columns read
    cols, odd = {}, []
    for t in ts:
        for base, nm in ((N, "n"), (Ce, "c")):
            x = index_of(t, base)
            if x and x[0] == "col" and x[1].op != "old":
                cols[t] = (nm, x[1])
    drawn_ = {x for _, x in cols.values() if x is not i}
    ctx.item("%s: a hypothesis is made from three cells drawn among those left" % g.sid)
    for x in drawn_:
        e = elem(x)
        if e is None or e[0] != ids or len(e[1]) != 1 or short(e[1][0]) != "get_random_uint":
            if e is None and short(x) == "get_random_uint":
                ctx.violation("%s:drawn" % g.sid, where(g.fn, node), "a cell that is not left may be drawn")
            return undecided(ctx, g, "cells drawn")
    for d in calls(g, "get_random_uint"):
        if len(d.args) == 1:
            value_is(ctx, g, d.node, "drawn", "the index is drawn among those of the cells left", d.args[0], left)
    if len(drawn_) != 3:
        if len(drawn_) in (1, 2):
            return ctx.violation("%s:drawn" % g.sid, where(g.fn, node), "a hypothesis is made from %d cells" % len(drawn_))
        return undecided(ctx, g, "cells drawn")

    def hook(t):
        x = index_of(t, mask)
        if x and x[0] in ("at", "[]"):
            return opaque("left") if x[1] is i else opaque("another cell is left")
        return None
    dl = [l for l, (hh, a, b) in carried(g, ik).items() if cval(a) == 0 and hh is not i and isinstance(S.read(l), T)
          and any(t in cols for t in closure(g.E, [S.read(l)]))]
    ctx.item("%s: the cost of a hypothesis is summed over the cells" % g.sid)
    if len(dl) != 1:
        return undecided(ctx, g, "cost")
    dhead, dfirst, _ = carried(g, ik)[dl[0]]
    g.b[dhead] = sym("cost")
    inlier, outlier = False, False
    before = len(ctx.viol)
    for k in range(14):
        new = vary(k)
        ids3 = {x: (new(), new()) for x in sorted(drawn_, key=lambda t: show(t))}
        ni, ci = new(), new()
        sn = M(3, 1, [sum((v[0].e[r] for v in ids3.values()), const(0)) for r in range(3)])
        sc_ = M(3, 1, [sum((v[1].e[r] for v in ids3.values()), const(0)) for r in range(3)])
        a = const(1) - dot(sn, sn) / const(9)
        b = sum((dot(*v) for v in ids3.values()), const(0)) / const(3) - dot(sn, sc_) / const(9)
        r = b / a
        ce = M(3, 1, [(x - r * y) / const(3) for x, y in zip(sc_.e, sn.e)])
        if k % 2:       # close to the cylinder
            ci = M(3, 1, [x + r * y + const(Fraction(1, 9)) * r * const(Fraction(k, 10)) for x, y in zip(ce.e, ni.e)])
        v = [x - r * y - z for x, y, z in zip(ci.e, ni.e, ce.e)]
        d = sum((x * x for x in v), const(0)) / (r * r)
        near = d.const() < limit
        inlier, outlier = inlier or near, outlier or not near
        for t, (nm, x) in cols.items():
            g.b[t] = (ni, ci)[nm == "c"] if x is i else ids3[x][nm == "c"]
        P = within_loop(g, pred(g, hook=hook), ik)
        pieces(ctx, g, S, node, "cost", "the cost of a cell left is its distance to the cylinder of the three cells, at most the limit",
               S.read(dl[0]), [(opaque("left"), sym("cost") + (d if near else const(limit))), (Not(opaque("left")), sym("cost"))], P=P)
        when(ctx, g, c, "inlier", "a cell is listed exactly when it is left and its distance is under the limit",
             And(opaque("left"), near), P=P)
        if len(ctx.viol) > before:
            return
    # the hypothesis kept
    S, F, node = g.ends[ok_]
    car = carried(g, ok_)
    new = {"cost": dhead, "list": h[0]}
    at_ = {}
    for l, (hh, a, b) in car.items():
        cl = closure(g.E, [S.read(l)])
        if l in (dl[0], lst) or a.op == "init" and a.a[0] == l:
            continue
        if dhead in cl and h[0] not in cl:
            at_["cost"] = l
        elif h[0] in cl:
            at_["list"] = l
    ctx.item("%s: the best cost and its inliers are kept" % g.sid)
    if len(at_) != 2:
        for k, nm in (("cost", "cost"), ("list", "inliers")):
            if k not in at_ and len(at_) == 1 and not any(
                    (dhead if k == "cost" else h[0]) in closure(g.E, [S.read(l)]) for l in car if l not in (dl[0], lst)):
                return ctx.violation("%s:kept" % g.sid, where(g.fn, node), "the %s of the best hypothesis are not kept with it" % nm)
        return undecided(ctx, g, "hypothesis kept")
    old = {k: car[l][0] for k, l in at_.items()}
    value_is(ctx, g, node, "first", "the cost to beat first is that of a hypothesis without inliers", car[at_["cost"]][1], const(limit) * left)
    ctx.item("%s: no inliers are kept before the first hypothesis" % g.sid)
    if not empty(car[at_["list"]][1]):
        undecided(ctx, g, "first inliers")
    g.b[old["cost"]] = sym("best")
    better = lt(sym("cost"), sym("best"))
    P = pred(g)
    names = ("cost", "list")
    try:
        cs = cases(g, S, [S.read(at_[k]) for k in names])
    except Shape as x:
        return undecided(ctx, g, "hypothesis kept (%s)" % x)
    stop = [t for t in ts if short(t) == "size" and t.a[1] in (h[0], old["list"])]
    for t in stop:
        g.b[t] = sym("size%d" % stop.index(t))
    P = within_loop(g, pred(g), ok_, calls(g, "get_random_uint")[-1])
    for ch, vals, pcs in cs:
        kinds = ["new" if v is new[k] else "old" if v is old[k] else None for k, v in zip(names, vals)]
        cond = And(P.pc(S.pc), *[P.pc(pc) for pc in pcs])
        what = "the cost and the inliers are those of the cheapest hypothesis so far"
        ctx.item("%s: %s" % (g.sid, what))
        if None in kinds:
            undecided(ctx, g, what)
        elif kinds[0] != kinds[1]:
            decide(ctx, g, node, "mixed", what, cond, False, mode="implies")
        else:
            decide(ctx, g, node, "best", what, cond, better if kinds[0] == "new" else Not(better), mode="implies")
    # the answer
    marks = [w for w in g.w if w.loc[:1] == out and len(w.loc) == 2 and w.open]
    ctx.item("%s: the mask is true for the inliers kept only" % g.sid)
    if len({id(w.node) for w in marks}) != 1:
        return undecided(ctx, g, "mask")
    w = marks[-1]
    if cval(w.val) is not True:
        ctx.violation("%s:mask" % g.sid, where(g.fn, w.node), "the inliers are not marked") if cval(w.val) is False else undecided(ctx, g, "mask")
    mk_ = [k for k in w.open][0]
    first = carried(g, mk_).get(out)
    f0 = first[1] if first else None
    if f0 is None:
        undecided(ctx, g, "mask before")
    elif f0.op == "mod" and f0.a[0] in ("setConstant", "setZero", "fill", "setOnes"):
        if f0.a[0] == "setOnes" or f0.a[0] != "setZero" and cval(f0.a[2]) is not None and cval(f0.a[2]) not in (False, 0):
            ctx.violation("%s:mask" % g.sid, where(g.fn, w.node), "the mask is not false before the inliers are marked")
    elif f0.op == "init":
        ctx.violation("%s:mask" % g.sid, where(g.fn, w.node), "the mask of the caller is not erased before the inliers are marked")
    elif not (f0.op == "call" and short(f0) in ("Zero", "Constant")):
        undecided(ctx, g, "mask before")
    final = None
    ix = w.loc[1]
    if ix[:2] == ("i", "at") and len(ix) == 3 and ix[2].op == "fld" and ix[2].a[1][:2] == ("i", "elem"):
        final = ix[2].a[0]
    kept(ctx, g, final, new["list"], old["list"], better, w.node, "the cells marked are the inliers kept")
    P = pred(g)
    for e in g.exits:
        if cval(e.val) is not None:
            decide(ctx, g, e.node, "few", "no cell is returned without a search only when fewer than three cells are left", P.pc(e.S.pc),
                   lt(left, const(3)) if cval(e.val) == 0 else False, mode="implies", integral=frozenset(g.ints))
            continue
        v = e.val
        ctx.item("%s: the number returned is that of the inliers kept" % g.sid)
        while v.op == "trunc":
            v = v.a[0]
        if short(v) == "size":
            kept(ctx, g, v.a[1], new["list"], old["list"], better, e.node, "the number returned is that of the inliers kept", final)
        else:
            ctx.violation("%s:number" % g.sid, where(g.fn, e.node), "the number returned is not that of the inliers") if not any(
                x in closure(g.E, [v]) for x in (new["list"], old["list"])) and not any(
                u.op in ("phi", "call") and short(u) != "size" for u in subterms(v)) else undecided(ctx, g, "number returned")


def kept(ctx, g, t, new, old, better, node, what, also=None):
    ctx.item("%s: %s" % (g.sid, what))
    if t is None:
        return undecided(ctx, g, what)
    if t.op == "init":
        return ctx.violation("%s:final" % g.sid, where(g.fn, node), "not so: %s" % what)
    if t is new:
        return ctx.violation("%s:final" % g.sid, where(g.fn, node), "not so: %s (those of the last hypothesis)" % what)
    if t is old or t is also:
        return
    if t.op == "phi" and t in g.E.cond and all(x in (new, old) for x, _, _ in g.E.cond[t]):
        return
    undecided(ctx, g, what)


# ------------------------------------------------------------------ construction from the cells
def fit(ctx):
    for fn in pick(ctx, CY + "Cylinder_Segment", lambda f: len(f.params) == 3):
        g = effects(ctx, None, fn=fn, deny=("run_ransac_loop", "get_normal", "get_centroid"))
        collected(ctx, g)
        cylinders(ctx, g)


def collected(ctx, g):
    grid, mask = (root(g, 0),), (root(g, 1),)
    total = sym("cells of the grid")
    natural(g, total)
    for t in all_terms(g):
        if short(t) == "size" and t.a[1].op == "init" and t.a[1].a[0] in (grid, mask):
            g.b[t] = total
    act = opaque("activated")
    seen = {}
    loops = {}
    for w in g.w:
        if not w.open or w.val is None:
            continue
        asked = [t for t in closure(g.E, [w.val]) if short(t) in ("get_normal", "get_centroid")]
        if len(asked) != 1 or len(w.loc) != 2 or not isinstance(w.loc[1], tuple) or w.loc[1][0] != "i":
            continue
        e = w.loc[1]
        q = asked[0]
        i = elem(q.a[1])
        key = max(w.open, key=lambda k: len(g.h.around.get(k, ())))
        if i is None or i[0] != grid or len(i[1]) != 1:
            undecided(ctx, g, "cell of %s" % show(q)[:40])
            continue
        i = i[1][0]
        if e[1] == "col" and len(e) == 3:
            rows_, j = (0, 1, 2), e[2]
        elif e[1] in ("at", "[]") and len(e) == 4 and cval(e[2]) is not None:
            rows_, j = (int(cval(e[2])),), e[3]
        else:
            undecided(ctx, g, "place of a normal")
            continue
        g.b[q] = vecn(short(q), 3)
        if key not in loops:
            if i.op != "phi" or i.a[0] != key:
                ctx.violation("%s:cell" % g.sid, where(g.fn, w.node), "the normals and centroids collected are not those of the cell")
                continue
            if steps(ctx, g, i, const(0), total, "cell of the grid") is None:
                continue
            loops[key] = i
        elif loops[key] is not i:
            ctx.violation("%s:cell" % g.sid, where(g.fn, w.node), "the normals and centroids collected are not those of the cell")
            continue
        ctx.item("%s: %s collected" % (g.sid, short(q)))
        try:
            v = alg(g).mat(w.val).e
        except Shape:
            undecided(ctx, g, "collected")
            continue
        sign = set()
        for r, x in zip(rows_, v):
            y = vecn(short(q), 3).e[r]
            s = 1 if equal(x, y) else -1 if equal(x, y.scale(-1)) else 0
            if s == 0 or s < 0 and short(q) == "get_centroid":
                if unknown_atoms(x):
                    undecided(ctx, g, "collected")
                else:
                    ctx.violation("%s:collected" % g.sid, where(g.fn, w.node), "the coordinate %d is not that of the cell" % r)
            sign.add(s)
        seen.setdefault((key, w.loc[0], short(q)), []).append((w, rows_, j, sign))
    lists = [(w, ix) for w, ix in writes(g, (THIS, "_local2globalMap"))[0] if w.open]
    first = None
    for (key, base, q), ws in seen.items():
        i = loops[key]

        def hook(t):
            e = elem(t)
            if e is not None and e[0] == mask and len(e[1]) == 1:
                return act if e[1][0] is i else opaque("another cell is activated")
            return None
        P = pred(g, hook=hook)
        js = {j for _, _, j, _ in ws}
        ctx.item("%s: the column of a cell (%s)" % (g.sid, q))
        if {r for _, rs, _, _ in ws for r in rs} != {0, 1, 2}:
            undecided(ctx, g, "coordinates")
        if len(set().union(*[s for *_, s in ws])) != 1:
            ctx.violation("%s:sign" % g.sid, where(g.fn, ws[0][0].node), "the coordinates of a normal do not have the same sign")
        for w, *_ in ws:
            when(ctx, g, w, "activated", "the %s is collected exactly for the activated cells" % q[4:], act, P=P,
                 side=lt(g.b[i], total))
        if len(js) != 1:
            ctx.violation("%s:column" % g.sid, where(g.fn, ws[0][0].node), "the coordinates of a cell are in different columns")
            continue
        j = js.pop()
        loc = [l for l, (hh, a, b) in carried(g, key).items() if hh is j]
        if not loc:
            if j is i:
                ctx.violation("%s:column" % g.sid, where(g.fn, ws[0][0].node), "the columns are not those of the activated cells")
            else:
                undecided(ctx, g, "column")
            continue
        hh, a, b = carried(g, key)[loc[0]]
        g.b[hh] = sym("column")
        S, F, node = g.ends[key]
        pieces(ctx, g, S, node, "column", "the activated cells have columns that follow each other", S.read(loc[0]),
               [(act, sym("column") + const(1)), (Not(act), sym("column"))], P=pred(g, hook=hook), side=lt(g.b[i], total))
        plain = ws[0][3] == {1}
        if plain:
            value_is(ctx, g, node, "column:first", "the first column", a, const(0))
            first = (key, j, i) if q == "get_normal" else first
            if q == "get_centroid" and first and first[1] is not j:
                undecided(ctx, g, "columns of the normals and the centroids")
            g.inv = getattr(g, "inv", {})
            g.inv[q] = base
        elif first and a is not first[1]:
            if cval(a) is not None:
                ctx.violation("%s:column:second" % g.sid, where(g.fn, node), "the opposite normals are written over the normals")
            else:
                undecided(ctx, g, "first column of the opposite normals")
    ctx.item("%s: the cell of the grid of each column is remembered" % g.sid)
    if len({id(w.node) for w, _ in lists}) != 1 or first is None:
        return undecided(ctx, g, "cells of the columns")
    w, ix = lists[-1]
    key, j, i = first
    if w.val is not i:
        ctx.violation("%s:map" % g.sid, where(g.fn, w.node), "the cell remembered is not that of the column") if w.val in (j,) or w.val.op == "c" else \
            undecided(ctx, g, "cell remembered")
    if len(ix) != 1 or ix[0] is not j:
        ctx.violation("%s:map" % g.sid, where(g.fn, w.node), "the cell is not remembered under its column") if ix[0] is i else \
            undecided(ctx, g, "place of the cell remembered")

    def hook(t):
        e = elem(t)
        return act if e is not None and e[0] == mask and e[1] == [i] else None
    when(ctx, g, w, "map", "the cell is remembered exactly for the activated cells", act, P=pred(g, hook=hook), side=lt(g.b[i], total))


def axis_of(ctx, g, t):
    """t: the axis of the cylinder"""
    ctx.item("%s: the axis is the direction the normals vary least in" % g.sid)
    if t.op == "fld" and t.a[1][:2] == ("i", "col") and short(t.a[0]) == "eigenvectors":
        k = cval(t.a[1][2])
        if k is None:
            return undecided(ctx, g, "axis")
        if k != 0:
            return ctx.violation("%s:axis" % g.sid, where(g.fn, None), "the axis is not the eigenvector of the smallest eigenvalue")
        s = t.a[0].a[1]
        m = s.a[1] if s.op == "new" and len(s.a) > 1 else None
        while m is not None and m.op in ("/",):
            m = m.a[0]
        ctx.item("%s: the directions are those of the covariance of the normals" % g.sid)
        if m is None or m.op != "*" or len(m.a) != 2 or short(m.a[1]) not in ("adjoint", "transpose") or m.a[1].a[1] is not m.a[0]:
            undecided(ctx, g, "covariance of the normals")
        return True
    undecided(ctx, g, "axis")


def same_mat(ctx, g, node, key, what, val, want, others=()):
    ctx.item("%s: %s" % (g.sid, what))
    try:
        v = alg(g).mat(val)
    except Shape as x:
        return undecided(ctx, g, "%s (%s)" % (what, x))
    if (v.r, v.c) == (want.r, want.c) and mequal(v, want) or any((v.r, v.c) == (o.r, o.c) and mequal(v, o) for o in others):
        return True
    if unknown_atoms(v) - unknown_atoms(want) or (v.r, v.c) != (want.r, want.c):
        return undecided(ctx, g, what)
    ctx.violation("%s:%s" % (g.sid, key), where(g.fn, node), "not so: %s" % what)


def mpieces(ctx, g, S, node, key, what, val, parts, P, side=True):
    """like pieces, for vectors"""
    ctx.item("%s: %s" % (g.sid, what))
    try:
        cs = cases(g, S, [val])
    except Shape as e:
        return undecided(ctx, g, "%s (%s)" % (what, e))
    for ch, (e,), pcs in cs:
        try:
            got = alg(g).mat(e)
        except Shape as x:
            undecided(ctx, g, "%s (%s)" % (what, x))
            continue
        wrong = [c for c, w in parts if not ((got.r, got.c) == (w.r, w.c) and mequal(got, w))]
        if not wrong:
            continue
        if unknown_atoms(got) - set().union(*[unknown_atoms(w) for _, w in parts]):
            undecided(ctx, g, "%s: not understood" % what)
            continue
        decide(ctx, g, node, key, what, And(P.pc(S.pc), *[P.pc(pc) for pc in pcs]), Not(Or(*wrong)), mode="implies",
               integral=frozenset(g.ints), side=side)


def cylinders(ctx, g):
    cs = calls(g, "run_ransac_loop")
    ctx.item("%s: cylinders are searched one after the other" % g.sid)
    if len({id(c.node) for c in cs}) != 1 or len(cs[-1].open) != 1:
        return undecided(ctx, g, "search of the cylinders")
    c = cs[-1]
    key = list(c.open)[0]
    n, left, total = sym("cells"), sym("left"), sym("cells of the grid")
    nb = sym("inliers")
    natural(g, n, left, nb)
    g.b[param(g, 2)] = n
    ts = all_terms(g)
    num_ = [t for t in ts if short(t) == "run_ransac_loop"]
    for t in num_:
        g.b[t] = nb
    outs = {t for t in ts if t.op == "out" and str(t.a[0]).endswith("run_ransac_loop") and t.a[1] == 5}
    R_ = outs
    normals, centroids, idl, maskh = c.args[2], c.args[3], c.args[1], c.args[4]
    g.normals, g.centroids = normals, centroids
    # the score
    ev = {}
    for t in ts:
        if t.op == "fld" and short(t.a[0]) == "eigenvalues" and t.a[1][0] == "i" and len(t.a[1]) == 3 and cval(t.a[1][2]) is not None:
            ev[int(cval(t.a[1][2]))] = t
            g.b[t] = sym("eigenvalue%d" % cval(t.a[1][2]))
    cand = {t for t in ts if t.op == "fld" and t.a[1][:2] == ("i", "col") and short(t.a[0]) == "eigenvectors"}
    if len(cand) != 1 or not axis_of(ctx, g, list(cand)[0]):
        return
    A0 = list(cand)[0]
    th = vecn("axis", 3)
    g.b[A0] = th
    for e in g.exits:
        v = e.S.read((THIS, "_axis"))
        if v is not A0 and v.op != "dflt" and not (v.op == "phi"):
            undecided(ctx, g, "axis kept")
    ctx.item("%s: the axis is kept" % g.sid)
    if not any(w.loc == (THIS, "_axis") and w.val is A0 for w in g.w):
        ctx.violation("%s:axis" % g.sid, where(g.fn, None), "the axis is not kept") if all(
            w.val.op == "dflt" for w in g.w if w.loc[:2] == (THIS, "_axis")) else undecided(ctx, g, "axis kept")
    # projection to the plane of the axis, one column at a time
    projected(ctx, g, normals, centroids, A0, th)
    S, F, node = g.ends[key]
    car = carried(g, key)
    while maskh.op == "agg":
        maskh = maskh.a[0]
    lh = [l for l, (h, a, b) in car.items() if idl is h]
    mh = [l for l, (h, a, b) in car.items() if maskh is h]
    ctx.item("%s: the cells left are carried from one cylinder to the next" % g.sid)
    if not lh or not mh:
        if any(not x and (v.op != "phi" or v.a[0] != key and v.a[0] in g.ends and not any(
                w.loc[:len(v.a[1])] == v.a[1] and key in w.open for w in g.w)) for x, v in ((lh, idl), (mh, maskh))):
            ctx.violation("%s:left" % g.sid, where(g.fn, c.node), "the cells left are not those of the cylinders before")
        return undecided(ctx, g, "cells left")
    # what happens to each cell
    L = lambda e: max(e.open, key=lambda k: len(g.h.around.get(k, ())))
    masks = [w for w in g.w if w.loc[:-1] == mh[0] and len(w.open) == 2]
    ctx.item("%s: the inliers leave the cells left" % g.sid)
    if len({id(w.node) for w in masks}) != 1:
        if not masks and not any(w.loc[:len(mh[0])] == mh[0] and key in w.open for w in g.w):
            return ctx.violation("%s:left" % g.sid, where(g.fn, node), "the inliers stay among the cells left")
        return undecided(ctx, g, "cells left")
    w = masks[-1]
    ik = L(w)
    i = at(w.loc)[1][-1]
    iS, iF, inode = g.ends[ik]
    if i.op != "phi" or i.a[0] != ik or steps(ctx, g, i, const(0), n, "cell") is None:
        return undecided(ctx, g, "cells of the cylinder")
    inl, lf = opaque("inlier"), opaque("left")
    head = carried(g, ik)

    def cellhook(ix):
        def hook(t):
            if t.op == "fld" and t.a[1][0] == "i" and t.a[1][1] in ("at", "[]") and len(t.a[1]) == 3:
                same_ = t.a[1][2] is ix
                if t.a[0] in R_:
                    return inl if same_ else opaque("another inlier")
                if t.a[0].op == "phi" and t.a[0].a[1] == mh[0]:
                    return lf if same_ else opaque("another left")
            if t.op == "phi" and isinstance(t.a[1], tuple) and t.a[1][:-1] == mh[0] and isinstance(t.a[1][-1], tuple) and t.a[1][-1][1] == "at":
                return lf if t.a[1][-1][2] is ix else None
            return None
        return hook
    hook = cellhook(i)
    ctx.item("%s: a cell that is an inlier is not left any more" % g.sid)
    if cval(w.val) is not False:
        ctx.violation("%s:left" % g.sid, where(g.fn, w.node), "an inlier stays among the cells left") if cval(w.val) is True else undecided(ctx, g, "mask")
    g.b.update({h: sym("left") for l, (h, a, b) in car.items() if a is param(g, 2)})
    here = lambda k, f: within_loop(g, pred(g, hook=f), k)
    score = parameter(ctx, "cylinderRansacMinimumScore")
    if 0 in ev and 2 in ev and score is not None:
        decide(ctx, g, c.node, "score", "cylinders are searched only when the normals vary much less along the axis", pred(g).pc(
            frozenset(frozenset((t, p) for t, p in cube if any(short(u) == "eigenvalues" for u in subterms(t))) for cube in live(g, c))),
               Not(lt(g.b[ev[2]] / g.b[ev[0]], const(score))), mode="implies")
    else:
        ctx.item("%s: score" % g.sid)
        undecided(ctx, g, "score")
    when(ctx, g, w, "left", "a cell leaves exactly when it is an inlier of the cylinder found", inl, P=here(ik, hook))
    push = [x for x in g.c if x.name in ADD and x.objloc == lh[0] and ik in x.open]
    ctx.item("%s: the list of the cells left is made again" % g.sid)
    if len({id(x.node) for x in push}) != 1:
        undecided(ctx, g, "list of the cells left")
    else:
        x = push[-1]
        if x.args[0] is not i:
            ctx.violation("%s:list" % g.sid, where(g.fn, x.node), "another cell is listed as left")
        when(ctx, g, x, "list", "a cell is listed as left exactly when it was left and is not an inlier", And(lf, Not(inl)), P=here(ik, hook))
        h = head.get(lh[0])
        if h is None:
            undecided(ctx, g, "list of the cells left")
        elif not empty(h[1]) and not (h[1].op == "mod" and h[1].a[0] == "clear"):
            if h[1] is idl:
                ctx.violation("%s:list" % g.sid, where(g.fn, x.node), "the cells that are not left any more stay in the list")
            else:
                undecided(ctx, g, "list of the cells left")
    # the number of cells left and the sums
    for l, (h, a, b) in car.items():
        if a is param(g, 2) and l in head:
            g.b[head[l][0]] = sym("left")
            pieces(ctx, g, iS, inode, "count", "the number of cells left decreases with each inlier", iS.read(l),
                   [(inl, sym("left") - const(1)), (Not(inl), sym("left"))], P=here(ik, hook))
    ctx.item("%s: the search of cylinders goes on while enough cells are left" % g.sid)
    if not any(a is param(g, 2) and l in head for l, (h, a, b) in car.items()):
        guard = set.intersection(*[set(q) for q in c.S.pc]) if c.S.pc else set()
        if not any(key in t._ls for t, _ in guard):
            ctx.violation("%s:count" % g.sid, where(g.fn, node), "the number of cells left does not decrease")
        else:
            undecided(ctx, g, "number of cells left")
    a0, b0 = vecn("normal", 3), vecn("centroid", 3)
    for t in ts:
        if t.op == "fld" and t.a[0] in (normals, centroids) and t.a[1][:2] == ("i", "col") and len(t.a[1]) == 3:
            v = "normal" if t.a[0] is normals else "centroid"
            g.b[t] = vecn(v if t.a[1][2] is i else "other" + v, 3)
        elif t.op == "fld" and t.a[1][:2] == ("i", "col") and len(t.a[1]) == 3:
            q = t.a[0]
            while q.op == "agg":
                q = q.a[0]
            for nm, v in getattr(g, "inv", {}).items():
                if q.op == "phi" and q.a[1] == (v,):
                    g.b[t] = vecn("raw" + nm[4:], 3)

    def role(v):
        """what is added to a sum"""
        vs = [r for u in closure(g.E, [v]) for r in [g.b.get(u)] if isinstance(r, M) and r.r == 3]
        has = {x for x, ys in (("n", ("normal", "othernormal", "rawnormal")), ("c", ("centroid", "othercentroid", "rawcentroid")))
               for r in vs for y in ys if mequal(r, vecn(y, 3))}
        return "b" if has == {"n", "c"} else "n" if has == {"n"} else "c" if has == {"c"} else None
    sums = {}
    for l, (h, a, b) in head.items():
        if l == lh[0] or h is i:
            continue
        nm = role(b)
        if nm is None:
            continue
        sums[nm] = (l, h, a)
    ctx.item("%s: the normals and centroids of the inliers are summed" % g.sid)
    if len(sums) != 3:
        return undecided(ctx, g, "sums of the inliers")
    for nm, (l, h, a) in sums.items():
        vec_ = nm != "b"
        g.b[h] = vecn("sum" + nm, 3) if vec_ else sym("sumb")
        zero = M(3, 1, [const(0)] * 3) if vec_ else M(1, 1, [const(0)])
        same_mat(ctx, g, inode, "sums:first", "the sums start at zero", a, zero)
        if vec_:
            add = a0 if nm == "n" else b0
            mpieces(ctx, g, iS, inode, "sums", "the sum is that of the %s of the inliers" % ("normals" if nm == "n" else "centroids"), iS.read(l),
                    [(inl, M(3, 1, [x + y for x, y in zip(g.b[h].e, add.e)])), (Not(inl), g.b[h])], here(ik, hook))
        else:
            pieces(ctx, g, iS, inode, "sums", "the sum is that of the products of the inliers", iS.read(l),
                   [(inl, g.b[h] + dot(a0, b0)), (Not(inl), g.b[h])], P=here(ik, hook))
    # the cylinder
    sn, sc_ = g.b[sums["n"][1]], g.b[sums["c"][1]]
    a = const(1) - dot(sn, sn) / (nb * nb)
    b = g.b[sums["b"][1]] / nb - dot(sn, sc_) / (nb * nb)
    r = b / a
    ce = M(3, 1, [(x - r * y) / nb for x, y in zip(sc_.e, sn.e)])
    vals = {}

    def count_only(t):
        if t.op in ("<", "<=", "==") and not all(cval(x) is not None or x in num_ for x in t.a):
            return opaque("%s %d" % (show(t)[:60], id(t)))
        return hook(t)
    for f in ("_radius", "_centers", "_inliers", "_MSE", "_pointsAxis1", "_pointsAxis2", "_normalsAxis1Axis2"):
        ps = [x for x in g.c if x.name in ADD and x.objloc == (THIS, f) and key in x.open]
        ctx.item("%s: one element of %s for each cylinder" % (g.sid, f))
        if not ps:
            ctx.violation("%s:%s" % (g.sid, f), where(g.fn, node), "nothing is added to %s for a cylinder" % f) if not any(
                w.loc[:2] == (THIS, f) and key in w.open for w in g.w) else undecided(ctx, g, f)
            continue
        if len({id(x.node) for x in ps}) != 1 or len(ps[-1].open) != 1:
            if len({id(x.node) for x in ps}) != 1:
                undecided(ctx, g, f)
            else:
                ctx.violation("%s:%s" % (g.sid, f), where(g.fn, ps[-1].node), "more than one element is added to %s" % f)
            continue
        when(ctx, g, ps[-1], f, "a cylinder is added exactly when at least 6 inliers are found", ge(nb, const(6)),
             P=within_loop(g, pred(g, hook=count_only), key, c))
        vals[f] = ps[-1]
    cl = [l for l in ((THIS, "_segmentCount"),) if l in car]
    if cl:
        g.b[car[cl[0]][0]] = sym("count")
        pieces(ctx, g, S, node, "count", "the number of cylinders is that of the elements of the lists", S.read(cl[0]),
               [(ge(nb, const(6)), sym("count") + const(1))], P=within_loop(g, pred(g, hook=hook), key, c))
        value_is(ctx, g, node, "count:first", "the number of cylinders before the first", car[cl[0]][1], const(0))
    else:
        ctx.item("%s: the cylinders are counted" % g.sid)
        if not any(w.loc == (THIS, "_segmentCount") and w.open for w in g.w):
            ctx.violation("%s:count" % g.sid, where(g.fn, node), "the cylinders are not counted")
    if "_inliers" in vals:
        ctx.item("%s: the inliers kept are those found" % g.sid)
        v = vals["_inliers"].args[0]
        while v.op in ("agg", "upd"):
            v = v.a[0]
        if v not in R_:
            ctx.violation("%s:inliers" % g.sid, where(g.fn, vals["_inliers"].node), "the inliers kept are not those found") if v is maskh or v.op == "phi" \
                else undecided(ctx, g, "inliers kept")
    center = vals["_centers"].args[0] if "_centers" in vals else None
    if center is None or not same_mat(ctx, g, vals["_centers"].node, "centre", "the centre is that of the least squares solution", center, ce):
        return
    if "_radius" in vals:
        rad = vals["_radius"].args[0]
        x = vals["_radius"]
        ctx.item("%s: the radius is positive" % g.sid)
        try:
            got = alg(g).sc(rad)
        except Shape:
            got = None
        if got is None:
            undecided(ctx, g, "radius")
        elif not equal(got, absv(r)):
            pieces(ctx, g, x.S, x.node, "radius", "the radius is that of the least squares solution, made positive", rad,
                   [(lt(r, const(0)), r.scale(-1)), (ge(r, const(0)), r)], P=within_loop(g, pred(g, hook=hook), key, c))
        g.b[rad] = sym("radius")
        g.E.kept = {rad}
    g.b[center] = vecn("centre", 3)
    cen = vecn("centre", 3)
    p2 = M(3, 1, [x + y for x, y in zip(cen.e, th.e)])
    lng = fn_norm(th)
    for f, want in (("_pointsAxis1", cen), ("_pointsAxis2", p2), ("_normalsAxis1Axis2", M(1, 1, [lng]))):
        if f in vals:
            same_mat(ctx, g, vals[f].node, f, {"_pointsAxis1": "the first point of the axis is the centre",
                     "_pointsAxis2": "the second point of the axis is the centre moved along the axis",
                     "_normalsAxis1Axis2": "the length kept is that between the two points of the axis"}[f], vals[f].args[0], want,
                     (M(1, 1, [const(1)]),) if f == "_normalsAxis1Axis2" else ())
    if "_MSE" in vals:
        error(ctx, g, vals["_MSE"], key, R_, inl, cellhook, cen, th, p2, nb, n)


def fn_norm(v):
    from algebra import sqrt
    return sqrt(dot(v, v))


def error(ctx, g, x, key, R_, inl, cellhook, cen, th, p2, nb, n):
    v = x.args[0]
    hs = [(k, l, h) for k in g.ends if inner(g, k, key) for l, (h, a, b) in carried(g, k).items() if h in closure(g.E, [v]) and cval(a) == 0]
    hs = [(k, l, h) for k, l, h in hs if any(u.op == "fld" and u.a[1][1] in ("block<3,1>", "col", "block") for u in closure(g.E, [g.ends[k][0].read(l)]))
          and h not in g.b]
    ctx.item("%s: the error is summed over the cells" % g.sid)
    if len(hs) != 1:
        return undecided(ctx, g, "error")
    k, l, h = hs[0]
    S, F, node = g.ends[k]
    g.b[h] = sym("error")
    value_is(ctx, g, x.node, "mse", "the error kept is the mean over the inliers", v, sym("error") / nb)
    t3 = [u for u in closure(g.E, [S.read(l)]) if u.op == "fld" and u.a[1][1] in ("block<3,1>", "col", "block")
          and any(isinstance(y, T) and y.op == "phi" and y.a[0] == k for y in u.a[1][2:])]
    if len(t3) != 1:
        return undecided(ctx, g, "centroid of the error")
    i = [y for y in t3[0].a[1][2:] if isinstance(y, T) and y.op == "phi"][0]
    ctx.item("%s: the error is that of the centroids" % g.sid)
    b = t3[0].a[0]
    while b.op == "agg":
        b = b.a[0]
    base = getattr(g, "inv", {}).get("get_centroid")
    if not (b.op == "phi" and base is not None and b.a[1] == (base,)) and t3[0].a[0] is not g.centroids:
        if t3[0].a[0] is g.normals or b.op == "phi" and b.a[1] == (getattr(g, "inv", {}).get("get_normal"),):
            return ctx.violation("%s:mse" % g.sid, where(g.fn, node), "the error is not that of the centroids")
        return undecided(ctx, g, "centroid of the error")
    p = vecn("point", 3)
    g.b[t3[0]] = p
    if steps(ctx, g, i, const(0), n, "cell") is None:
        return
    u = M(3, 1, [y - z for y, z in zip(p.e, p2.e)])
    from algebra import cross
    d = fn_norm(cross(th, u)) / fn_norm(th) - sym("radius")
    d1 = fn_norm(cross(th, u)) - sym("radius")
    got = S.read(l)
    P = within_loop(g, pred(g, hook=cellhook(i)), k)
    pieces(ctx, g, S, node, "mse", "the error of an inlier is the square of its distance to the cylinder", got,
           [(inl, sym("error") + d * d), (Not(inl), sym("error"))], P=P)


def projected(ctx, g, normals, centroids, A0, th):
    """the columns given to the search: projections on the plane orthogonal to the axis; normals of length 1"""
    base = getattr(g, "inv", {})
    saved = dict(g.b)
    done = set()
    for t in closure(g.E, [normals, centroids]):
        if t.op == "phi" and isinstance(t.a[1], tuple) and len(t.a[1]) == 1:
            if t.a[1][0] == base.get("get_normal"):
                g.b[t] = vecn("n", 3)
            elif t.a[1][0] == base.get("get_centroid"):
                g.b[t] = vecn("c", 3)
        if t.op == "agg" and t.a[0].op == "phi" and isinstance(t.a[0].a[1], tuple) and t.a[0].a[1][0] == base.get("get_centroid"):
            g.b[t] = vecn("c", 3)
        if t.op == "fld" and t.a[0].op in ("phi", "agg") and t.a[1][:2] in (("i", "block"), ("i", "leftCols")):
            b = t.a[0]
            while b.op == "agg":
                b = b.a[0]
            a = t.a[1][2:]
            if b.op == "phi" and b.a[1] == (base.get("get_normal"),):
                # every column of the first half
                if len(a) == 4 and cval(a[0]) == 0 and cval(a[1]) == 0 and cval(a[2]) == 3 and a[3] is param(g, 2) or len(a) == 1 and a[0] is param(g, 2):
                    g.b[t] = vecn("n", 3)
                elif len(a) == 4 and (a[1] is param(g, 2) or cval(a[1]) not in (None, 0)):
                    ctx.violation("%s:half" % g.sid, where(g.fn, None), "the normals kept are not those of the cells")
        if t.op == "vec" and len(t.a) == 2 and cval(t.a[0]) == 3 and t.a[1] is param(g, 2):
            g.b[t] = M(3, 1, [sym("unset%d" % r) for r in range(3)])
    for t in closure(g.E, [normals, centroids]):
        if t.op == "mod" and t.a[0] == "colwise":
            done.add(t)
    n, c = vecn("n", 3), vecn("c", 3)
    pn = M(3, 1, [x - dot(th, n) * y for x, y in zip(n.e, th.e)])
    pc = M(3, 1, [x - dot(th, c) * y for x, y in zip(c.e, th.e)])
    same_mat(ctx, g, None, "centroids", "the centroids searched are those of the cells, projected along the axis", centroids, pc)
    same_mat(ctx, g, None, "normals", "the normals searched are those of the cells, projected along the axis, of length 1", normals,
             M(3, 1, [x / fn_norm(pn) for x in pn.e]))
    g.b.clear()
    g.b.update(saved)


# ------------------------------------------------------------------ distances and answers
def parts_of(g, ix, names=("P1", "P2", "len", "rad")):
    out = {}
    for f, nm in (("_pointsAxis1", "P1"), ("_pointsAxis2", "P2"), ("_normalsAxis1Axis2", "len"), ("_radius", "rad")):
        t = mk("init", (THIS, f, ("i", "at", ix)))
        g.b[t] = vecn(nm, 3) if nm[0] == "P" else sym(nm)
        out[nm] = g.b[t]
    return out


def line_distance(o, p):
    from algebra import cross
    u = M(3, 1, [a - b for a, b in zip(o["P2"].e, o["P1"].e)])
    v = M(3, 1, [a - b for a, b in zip(p.e, o["P2"].e)])
    return fn_norm(cross(u, v)) / o["len"] - o["rad"]


def distance(ctx):
    for fn in pick(ctx, CY + "get_distance", lambda f: len(f.params) == 2):
        g = effects(ctx, None, fn=fn)
        p = vecn("p", 3)
        g.b[param(g, 0)] = p
        o = parts_of(g, param(g, 1))
        for e in g.exits:
            value_is(ctx, g, e.node, "distance", "the distance of a point is its distance to the axis, less the radius", e.val, line_distance(o, p))


def nearest(ctx):
    for fn in pick(ctx, CY + "get_distance", lambda f: len(f.params) == 1):
        g = effects(ctx, None, fn=fn)
        p = vecn("p", 3)
        g.b[param(g, 0)] = p
        for e in g.exits:
            v = e.val
            ctx.item("%s: the distance is the smallest over the parts" % g.sid)
            if v.op != "phi" or v.a[0] not in g.ends:
                used = {t.a[0][2][2] for t in subterms(v) if t.op == "init" and len(t.a[0]) == 3 and t.a[0][0] == THIS and isinstance(t.a[0][2], tuple)
                        and t.a[0][2][1] == "at"}
                ctx.violation("%s:parts" % g.sid, where(fn, e.node), "the distance is that of one part") if len(used) == 1 and all(
                    cval(u) is not None for u in used) else undecided(ctx, g, "smallest distance")
                continue
            key = v.a[0]
            h, first, nxt = carried(g, key)[v.a[1]]
            used = {t.a[0][2][2] for t in inside(g, key, nxt) if t.op == "init" and len(t.a[0]) == 3 and t.a[0][0] == THIS and isinstance(t.a[0][2], tuple)
                    and t.a[0][2][1] == "at"}
            idx = [t for t in used if t.op == "phi"]
            if len(idx) != 1 or len(used) != 1:
                undecided(ctx, g, "part of the distance")
                continue
            total = sym("parts")
            natural(g, total)
            for t in all_terms(g):
                if short(t) == "size" and t.a[1].op == "init" and t.a[1].a[0][0] == THIS:
                    g.b[t] = total
            o = parts_of(g, num0())
            d0 = line_distance(o, p)
            start = const(0)
            try:
                f = alg(g).sc(first)
            except Shape:
                f = None
            if f is not None and equal(f, d0):
                start = const(1)
            elif cval(first) is None or cval(first) < 10 ** 300:
                if f is not None and not unknown_atoms(f) and cval(first) is not None:
                    ctx.violation("%s:first" % g.sid, where(g.fn, e.node), "the distance does not start at that of a part")
                else:
                    undecided(ctx, g, "first distance")
                continue
            for k in list(g.b):
                if k.op == "init" and k.a[0][0] == THIS:
                    del g.b[k]
            a = carried(g, key).get(idx[0].a[1])
            try:
                lo = alg(g).sc(a[1])
            except Shape:
                lo = start
            s = span(ctx, g, idx[0], start if not equal(lo, const(0)) else const(0), total, "part")
            if s is None:
                continue
            g.b[h] = sym("smallest")
            o = parts_of(g, idx[0])
            S, F, node = g.ends[key]
            d = line_distance(o, p)
            try:
                if equal(alg(g).sc(S.read(v.a[1])), extremum("min", sym("smallest"), d)):
                    continue
            except Shape:
                pass
            pieces(ctx, g, S, node, "smallest", "the smallest distance so far is kept", S.read(v.a[1]),
                   [(lt(d, sym("smallest")), d), (Not(lt(d, sym("smallest"))), sym("smallest"))], P=pred(g), side=Not(eq(d, sym("smallest"))))


def inside(g, key, t, seen=None):
    """terms that an iteration of the loop computes for t"""
    seen = set() if seen is None else seen
    for u in subterms(t):
        if u in seen:
            continue
        seen.add(u)
        if u.op == "phi" and u.a[0] != key and u in g.E.cond:
            for x, _, _ in g.E.cond[u]:
                inside(g, key, x, seen)
    return seen


def num0():
    from engine import num
    return num(0)


def getters(ctx):
    for name, f, arity in (("get_MSE_at", "_MSE", 1), ("get_radius", "_radius", 1), ("get_axis1_point", "_pointsAxis1", 1),
                           ("get_axis2_point", "_pointsAxis2", 1), ("get_axis_normal", "_normalsAxis1Axis2", 1),
                           ("get_local_to_global_mapping", "_local2globalMap", 1), ("get_segment_count", "_segmentCount", 0),
                           ("get_normal", "_axis", 0), ("is_inlier_at", "_inliers", 2)):
        for fn in pick(ctx, CY + name):
            g = effects(ctx, None, fn=fn)
            loc = (THIS, f) + tuple(("i", "at", param(g, k)) for k in range(arity))
            want = mk("init", loc)
            for e in g.exits:
                ctx.item("%s: the answer is the element asked for" % g.sid)
                v = e.val
                if v is want:
                    continue
                try:
                    if mequal(alg(g).mat(v), alg(g).mat(want)):
                        continue
                except (Shape, AttributeError):
                    pass
                if v.op == "init" and v.a[0][0] == THIS or v.op == "c":
                    ctx.violation("%s:answer" % g.sid, where(fn, e.node), "the answer is %s, not %s" % (show(v), show(want)))
                else:
                    undecided(ctx, g, "answer")
    for fn in pick(ctx, CY + "get_normal_similarity"):
        g = effects(ctx, None, fn=fn)
        a, b = vecn("a", 3), vecn("b", 3)
        g.b[mine(g, "_axis")], g.b[g.par(0, "_axis")] = a, b
        for e in g.exits:
            value_is(ctx, g, e.node, "similarity", "the similarity is the absolute cosine of the two axes", e.val, absv(dot(a, b)))


def copies(ctx):
    for fn in pick(ctx, CY + "Cylinder_Segment", lambda f: len(f.params) in (1, 2)):
        g = effects(ctx, None, fn=fn)
        if len(fn.params) == 1:
            for f in ("_axis", "_centers", "_pointsAxis1", "_pointsAxis2", "_normalsAxis1Axis2", "_inliers", "_MSE", "_radius", "_cellActivatedCount",
                      "_segmentCount", "_local2globalMap"):
                for e in g.exits:
                    v = e.S.read((THIS, f))
                    ctx.item("%s: %s is copied" % (g.sid, f))
                    if v is not g.par(0, f):
                        ctx.violation("%s:copy:%s" % (g.sid, f), where(fn, None), "the %s of a copy is not that of the original" % f) \
                            if v.op in ("init", "dflt", "c") else undecided(ctx, g, f)
        else:
            for f in ("_radius", "_centers"):
                ps = [c for c in g.c if c.name in ADD and c.objloc == (THIS, f)]
                want = g.par(0, f, ("i", "at", param(g, 1)))
                ctx.item("%s: the %s of the part is copied" % (g.sid, f))
                for c in ps:
                    if c.args[0] is not want:
                        ctx.violation("%s:part:%s" % (g.sid, f), where(fn, c.node), "the %s of another part is copied" % f) \
                            if c.args[0].op == "init" else undecided(ctx, g, f)
                if not ps:
                    undecided(ctx, g, f)
            for e in g.exits:
                ctx.item("%s: the axis is copied" % g.sid)
                v = e.S.read((THIS, "_axis"))
                if v is not g.par(0, "_axis"):
                    ctx.violation("%s:axis" % g.sid, where(fn, None), "the axis is not copied") if v.op in ("init", "dflt", "c") else undecided(ctx, g, "axis")


# ------------------------------------------------------------------ indices drawn
def drawn(ctx):
    for fn in pick(ctx, "utils::Random::get_random_uint"):
        g = effects(ctx, None, fn=fn, deny=("get_random_double",))
        lo, hi = (sym("lo"), sym("hi")) if len(fn.params) == 2 else (const(0), sym("hi"))
        g.b[param(g, len(fn.params) - 1)] = hi
        natural(g, hi)
        if len(fn.params) == 2:
            g.b[param(g, 0)] = lo
            natural(g, lo)
        u = sym("u")
        for t in all_terms(g):
            if short(t) == "get_random_double":
                g.b[t] = u
        for e in g.exits:
            value_is(ctx, g, e.node, "drawn", "the index drawn is in the interval, its end excluded", e.val, lo + fn1("floor", u * (hi - lo)))
    for fn in pick(ctx, "utils::Random::get_random_double"):
        g = effects(ctx, None, fn=fn)
        ctx.item("%s: between 0 and 1" % g.sid)
