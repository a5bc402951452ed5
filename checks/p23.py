RULE = """
Search of matches, from value numbers with exact path conditions. The table of keypoints, the table of ids and the search grid are
followed write by write over the loops that fill them: index, value and condition of each. The cell of a point, the cells visited
by a search and the mask are compared with the specification as piecewise linear forms; what find_matches returns and what it hands
to the optimisation is decided case by case, and so is visibility.
"""
import math
import random
from fractions import Fraction
from effects import *
from preds import DIRS, OPS, leaves, value
from algebra import _byid, p_str
from p22 import short, param, mine, once, given, number
from engine import num as cst, project

KH = "keypoints::Keypoint_Handler::"
CELL = const(31)


def run(ctx):
    for f in (border, depth, grid, filled, masked, closest, known, unmatched, visible, points, planes):
        ctx.group(f)
    ctx.assume("The distance of two descriptors and the two nearest of them are OpenCV's (knnMatch).")
    ctx.assume("The wide search of keypoints is not claimed to be wider than the narrow one.")


def same(ctx, g, node, key, what, got, want, side=True):
    """obligation: two piecewise linear forms are equal"""
    if unknown_atoms(got) - unknown_atoms(want):
        ctx.item("%s: %s" % (g.sid, what))
        return undecided(ctx, g, "%s: %r" % (what, sorted(map(repr, unknown_atoms(got)))[:2]))
    if equal(got, want):
        ctx.item("%s: %s" % (g.sid, what))
        return True
    w = apart(g, got, want, side)
    if w is not None:
        ctx.item("%s: %s" % (g.sid, what))
        return ctx.violation("%s:%s" % (g.sid, key), where(g.fn, node), "not so: %s (%s)" % (what, w))
    return decide(ctx, g, node, key, what, eq(got, want), True, side=side, integral=frozenset(g.ints))


def apart(g, got, want, side):
    """a point where the two forms differ, among small values of their symbols (None: none found)"""
    def basic(r, out, seen):
        for a in r.atoms():
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.kind in ("min", "max", "floor", "ceil"):
                for d in a.data:
                    basic(d, out, seen)
            elif a.kind == "abs":
                raise Shape("abs")
            else:
                out.append(a)

    def num_(r, env):
        def poly(p):
            t = Fraction(0)
            for m, c in p.items():
                v = Fraction(c)
                for k, e in m:
                    v *= val(_byid[k], env) ** e
                t += v
            return t
        return poly(r.n) / poly(r.d)

    def val(a, env):
        if a.id not in env:
            ds = [num_(d, env) for d in a.data] if a.kind in ("min", "max", "floor", "ceil") else None
            if ds is None:
                raise Shape("atom")
            env[a.id] = Fraction({"min": min, "max": max, "floor": lambda x: math.floor(x[0]), "ceil": lambda x: math.ceil(x[0])}[a.kind](ds))
        return env[a.id]
    out = []
    try:
        seen = set()
        basic(got, out, seen)
        basic(want, out, seen)
        ls = leaves(side)
        for l in ls:
            if l[0] != "cmp":
                return None
            for m in DIRS[l[1]]:
                for k, _ in m:
                    if k not in seen:
                        basic(R({((k, 1),): 1}), out, seen)
    except Shape:
        return None
    rnd = random.Random(1)
    for _ in range(400):
        env = {}
        for a in out:
            env[a.id] = Fraction(rnd.randint(0, 12)) if a.id in g.ints else Fraction(rnd.choice((-40, -5, 0, 3, 17, 30, 31, 33, 61, 62, 64, 95, 130, 250, 400)))
        try:
            full = {}
            for l in ls:
                t = sum((Fraction(c) * prod([val(_byid[k], env) ** e for k, e in m]) for m, c in DIRS[l[1]].items()), Fraction(0))
                full[l] = OPS[l[3]](t, l[2])
            if not value(side, full):
                continue
            x, y = num_(got, dict(env)), num_(want, dict(env))
        except (Shape, ZeroDivisionError):
            continue
        if x != y:
            return "%s instead of %s when %s" % (x, y, ", ".join("%s is %s" % (p_str({((a.id, 1),): 1}), env[a.id]) for a in out))
    return None


def prod(xs):
    r = Fraction(1)
    for x in xs:
        r *= x
    return r


def cell(p, n):
    return extremum("min", extremum("max", fn1("floor", p / CELL), const(0)), n - const(1))


def counts(g):
    x, y = sym("columns"), sym("rows")
    g.b[mine(g, "_cellCountX")], g.b[mine(g, "_cellCountY")] = x, y
    natural(g, x, y)
    return x, y, And(ge(x, const(1)), ge(y, const(1)))


# ------------------------------------------------------------------ depth of a keypoint
def border(ctx):
    for fn in pick(ctx, "keypoints::is_in_border"):
        g = effects(ctx, None, fn=fn)
        b, x, y, c, r = sym("border"), sym("x"), sym("y"), sym("columns"), sym("rows")
        g.b[param(g, 2)] = b
        for f, s in (("x", x), ("y", y)):
            g.b[mk("init", (root(g, 0), f))] = s
        for f, s in (("cols", c), ("rows", r)):
            g.b[mk("init", (root(g, 1), f))] = s
        natural(g, c, r)
        P = pred(g)
        decide(ctx, g, None, "inside", "a point is inside when it is at least the border away from each side",
               Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits]),
               And(le(b, x), le(b, y), lt(x, c - b), lt(y, r - b)), side=ge(b, const(0)))


def depth(ctx):
    for fn in pick(ctx, "keypoints::get_depth"):
        g = effects(ctx, None, fn=fn, deny=("is_in_border",))
        inside = opaque("in the image")
        c = once(ctx, g, "is_in_border", "border")
        if c is None:
            continue
        given(ctx, g, c, 0, lambda v: v is param(g, 1), "point", "the point asked for is the one given")
        given(ctx, g, c, 1, lambda v: v is param(g, 0), "image", "the image asked for is the one given")
        value_is(ctx, g, c.node, "border", "the border", c.args[2], *[const(k) for k in range(1, 20)])
        P = pred(g, hook=lambda t: inside if short(t) == "is_in_border" else None)
        d = sym("depth of the image")
        for e in g.exits:
            for t in closure(g.E, [e.val]):
                a = elem(t)
                if a is None or a[0] != (root(g, 0),):
                    continue
                ix = a[1]
                ctx.item("%s: the depth is read at the point" % g.sid)
                if len(ix) != 2:
                    undecided(ctx, g, "pixel read")
                    continue
                for v, own, other, n in ((ix[0], "y", "x", "row"), (ix[1], "x", "y", "column")):
                    used = {x.a[0][-1] for x in subterms(v) if x.op == "init" and x.a[0][0] == root(g, 1)}
                    if other in used and own not in used:
                        ctx.violation("%s:pixel" % g.sid, where(fn, e.node), "the %s read is not that of the point" % n)
                    elif used != {own}:
                        undecided(ctx, g, "%s read" % n)
                g.b[t] = d
            pieces(ctx, g, e.S, e.node, "depth", "the depth is that of the pixel inside the image, 0 outside", e.val,
                   [(inside, d), (Not(inside), const(0))], P=P)


# ------------------------------------------------------------------ the grid
def grid(ctx):
    for fn in pick(ctx, KH + "Keypoint_Handler", lambda f: len(f.params) == 3):
        g = effects(ctx, None, fn=fn, deny=("log_error",))
        w, h = sym("width"), sym("height")
        g.b[param(g, 0)], g.b[param(g, 1)] = w, h
        natural(g, w, h)
        X, Y = fn1("ceil", w / CELL), fn1("ceil", h / CELL)
        for e in g.exits:
            for f, v in (("_cellCountX", X), ("_cellCountY", Y)):
                value_is(ctx, g, None, f, "there are enough cells for the image (%s)" % f, e.S.read((THIS, f)), v)
            ctx.item("%s: the ratio of the distances is the one given" % g.sid)
            v = e.S.read((THIS, "_maxMatchDistance"))
            if v is not param(g, 2):
                (ctx.violation("%s:ratio" % g.sid, where(fn), "the ratio kept is not the one given") if v.op in ("c", "init", "dflt") else undecided(ctx, g, "ratio"))
        rs = [c for c in calls(g, "resize") + calls(g, "assign") if c.objloc == (THIS, "_searchSpaceIndexContainer")]
        ctx.item("%s: there is a list for each cell" % g.sid)
        if not rs:
            undecided(ctx, g, "size of the grid")
        for c in rs:
            value_is(ctx, g, c.node, "cells", "the number of lists", c.args[0], X * Y)
            when(ctx, g, c, "cells:always", "the lists are always made", gt(sym("ratio"), const(0)), P=bind_pred(g, param(g, 2), sym("ratio")))


def bind_pred(g, t, s):
    g.b[t] = s
    return pred(g)


def source(g, v):
    """the point of an element whose coordinates are read, and the list it is in: (path of the list, index)"""
    for t in subterms(v):
        if t.op == "init":
            for k in range(len(t.a[0]), 1, -1):
                a = at(t.a[0][:k])
                if a is not None and len(a[1]) == 1:
                    return a[0], a[1][0], t.a[0][:k]
    return None


def filled(ctx):
    for fn in pick(ctx, KH + "set"):
        g = effects(ctx, None, fn=fn, deny=("get_depth", "log_error"), distinct=True)
        X, Y, side = counts(g)
        det, flow = (root(g, 0),), (root(g, 2), "_keypoints")
        n = sym("detected")
        for w in closure(g.E, [t for c in g.c for a in c.args if a is not None for t in [a]] +
                         [t for w in g.w for t in [w.val] if t is not None] + [t for e in g.c for q in (e.S.pc or ()) for t, _ in q]):
            if short(w) == "size" and len(w.a) > 1 and w.a[1].op == "init":
                if w.a[1].a[0] == det:
                    g.b[w] = n
                elif w.a[1].a[0] in (flow, (root(g, 2), "_ids")):
                    g.b[w] = sym("tracked")
        natural(g, n, sym("tracked"))
        for c in calls(g, "get_depth"):
            g.b[mk("call", *([c.full] + list(c.args)))] = sym("depth")
        for t in closure(g.E, [w.val for w in g.w if w.val is not None]):
            if short(t) == "get_depth":
                g.b[t] = sym("depth")
        K, U, Z = (THIS, "_keypoints"), (THIS, "_uniqueIdsToKeypointIndex"), (THIS, "_searchSpaceIndexContainer")
        for e in g.exits:
            ctx.item("%s: the descriptors kept are those given" % g.sid)
            v = e.S.read((THIS, "_descriptors"))
            if v is not param(g, 1):
                if any(x is mine(g, "_descriptors") for _, (x,), _ in cases(g, e.S, [v])):
                    ctx.violation("%s:descriptors" % g.sid, where(fn), "the descriptors kept are not always those given")
                else:
                    undecided(ctx, g, "descriptors")
        el, wh, odd = writes(g, K)
        if not el:
            undecided(ctx, g, "keypoints")
            continue
        seen = {}
        for w, ix in el:
            src = source(g, w.val)
            if src is None or src[0] not in (det, flow) or len(ix) != 1:
                undecided(ctx, g, "keypoint written: %s" % show(w.val)[:60])
                continue
            kind = "detected" if src[0] == det else "tracked"
            s = span(ctx, g, src[1], const(0), n if kind == "detected" else sym("tracked"), "%s point" % kind)
            if s is None:
                continue
            natural(g, s)
            seen.setdefault(kind, []).append((w, s, src))
            value_is(ctx, g, w.node, "index:" + kind, "the index of a %s keypoint" % kind, ix[0], s if kind == "detected" else s + n)
            key = src[1].a[0]
            inside = [k for k in g.spans if k == key]
            P = pred(g)
            hi = n if kind == "detected" else sym("tracked")
            when(ctx, g, w, "each:" + kind, "every %s keypoint is kept" % kind, And(ge(s, const(0)), lt(s, hi)), P=P, side=And(ge(s, const(0)), ge(hi, const(0))))
            args = w.val.a[1:] if w.val.op in ("new", "call") else None
            ctx.item("%s: a %s keypoint has its own coordinates and depth" % (g.sid, kind))
            xs = [project(w.val, ("i", "at", cst(i))) for i in range(3)] if args is None else [a for a in args if isinstance(a, T)]
            if len(xs) != 3:
                undecided(ctx, g, "coordinates of a %s keypoint" % kind)
                continue
            for v, f in zip(xs, "xy"):
                if v is mk("init", src[2] + (f,)):
                    continue
                if v.op == "init" and v.a[0][:-1] == src[2] or v.op == "c" or short(v) == "get_depth":
                    ctx.violation("%s:%s:%s" % (g.sid, kind, f), where(fn, w.node), "%s of a %s keypoint is not its own" % (f, kind))
                else:
                    undecided(ctx, g, "%s of a %s keypoint" % (f, kind))
            v = xs[2]
            if short(v) != "get_depth":
                (ctx.violation("%s:%s:depth" % (g.sid, kind), where(fn, w.node), "the depth of a %s keypoint is not read in the depth image" % kind)
                 if v.op in ("c", "init") else undecided(ctx, g, "depth of a %s keypoint" % kind))
            elif v.a[1] is not param(g, 3):
                undecided(ctx, g, "image of the depth")
            elif not same_place(v.a[2], src[2]):
                (ctx.violation("%s:%s:depth" % (g.sid, kind), where(fn, w.node), "the depth of a %s keypoint is not read at its own place" % kind)
                 if v.a[2].op == "init" else undecided(ctx, g, "place of the depth"))
        for kind in ("detected", "tracked"):
            ctx.item("%s: the %s keypoints are kept" % (g.sid, kind))
            if kind not in seen and len(seen) == 1 and not odd:
                ctx.violation("%s:%s" % (g.sid, kind), where(fn), "the %s keypoints are not kept" % kind)
        # the grid
        ps = [c for c in calls(g, "push_back") + calls(g, "emplace_back") if c.objloc and c.objloc[:2] == Z]
        first = min([c.seq for c in ps] + [1 << 30])
        if not ps:
            undecided(ctx, g, "grid")
        for c in ps:
            a = at(c.objloc)
            src = source(g, mk("x", *a[1])) if a else None
            v = c.args[0]
            if src is None or len(a[1]) != 1:
                undecided(ctx, g, "cell of a keypoint")
                continue
            if src[0] == flow:
                ctx.violation("%s:grid:tracked" % g.sid, where(fn, c.node), "a tracked keypoint, which has no descriptor, is put in the grid")
                continue
            got = [s for w, s, q in seen.get("detected", ()) if q[1] is src[1]]
            s = got[0] if got else (span(ctx, g, src[1], const(0), n, "detected point of the grid") if src[0] == det else None)
            if s is None:
                undecided(ctx, g, "cell of a keypoint")
                continue
            natural(g, s)
            value_is(ctx, g, c.node, "grid:index", "the index of a keypoint in the grid", v, s)
            when(ctx, g, c, "grid:each", "every detected keypoint is in the grid", And(ge(s, const(0)), lt(s, n)), side=And(ge(s, const(0)), ge(n, const(0))))
            px, py = sym("x"), sym("y")
            g.b[mk("init", src[2] + ("x",))], g.b[mk("init", src[2] + ("y",))] = px, py
            try:
                side_ = And(side, ge(px, const(0)), ge(py, const(0)))
                same(ctx, g, c.node, "grid:cell", "a keypoint is in the cell of its position", alg(g).sc(a[1][0]), cell(py, Y) * X + cell(px, X), side=side_)
            except Shape as e:
                undecided(ctx, g, "cell of a keypoint (%s)" % e)
        # the ids
        el, _, odd = writes(g, U)
        ui = min([w.seq for w, _ in el] + [1 << 30])
        for w, ix in el:
            src = source(g, ix[0])
            if src is None or src[0] != (root(g, 2), "_ids"):
                undecided(ctx, g, "id of a tracked keypoint")
                continue
            got = [s for _, s, q in seen.get("tracked", ()) if q[1] is src[1]]
            if not got or ix[0] is not mk("init", src[2]):
                undecided(ctx, g, "id of a tracked keypoint")
                continue
            i = sym("id")
            g.b[ix[0]] = i
            natural(g, i)
            value_is(ctx, g, w.node, "id:index", "the index of a tracked keypoint under its id", w.val, got[0] + n)
            t = sym("tracked")
            when(ctx, g, w, "id:each", "every tracked keypoint with an id is found under it", And(gt(i, const(0)), ge(got[0], const(0)), lt(got[0], t)), side=And(ge(got[0], const(0)), ge(t, const(0)), ge(i, const(0))))
        if not el:
            touched = [c for c in g.c if c.objloc == U and c.name not in ("clear",)]
            if touched:
                undecided(ctx, g, "ids")
            else:
                ctx.violation("%s:ids" % g.sid, where(fn), "the tracked keypoints are not found under their ids")
        # nothing of the last frame is left
        for path, when_, what in ((U, ui, "ids"), (Z, first, "cells")):
            ctx.item("%s: the %s of the last frame are forgotten" % (g.sid, what))
            gone = [c for c in g.c if c.objloc and c.objloc[:2] == path and c.name in ("clear", "assign", "swap", "fill") and c.seq < when_]
            gone += [w for w in g.w if w.loc == path and w.seq < when_]
            later = [c for c in g.c if c.objloc == path and c.name == "clear" and c.seq > when_]
            if later:
                ctx.violation("%s:cleared:%s" % (g.sid, what), where(fn, later[0].node), "the %s are cleared after they are filled" % what)
            if not gone and when_ < (1 << 30):
                ctx.violation("%s:kept:%s" % (g.sid, what), where(fn), "the %s of the last frame are not forgotten" % what)
            for c in gone:
                if isinstance(c, C) and not any(always_here(g, x) for x in gone):
                    undecided(ctx, g, "%s of the last frame" % what)
                    break
        ctx.item("%s: the keypoints of the last frame are replaced" % g.sid)
        if not wh and not [c for c in g.c if c.objloc == K and c.name in ("resize", "assign")]:
            undecided(ctx, g, "table of keypoints")
        for w in wh:
            if w.val.op == "new" and len(w.val.a) > 1 and isinstance(w.val.a[1], T):
                value_is(ctx, g, w.node, "size", "the number of keypoints", w.val.a[1], n + sym("tracked"))


def always_here(g, c):
    if isinstance(c, W):
        return always(c.S)
    return c.S.pc is not None and frozenset() in live(g, c)


def same_place(t, loc):
    if t.op == "init" and t.a[0] == loc:
        return True
    # rebuilt from its coordinates
    xs = [a for a in t.a[1:] if isinstance(a, T)] if t.op in ("new", "call") else []
    return len(xs) == 2 and xs[0] is mk("init", loc + ("x",)) and xs[1] is mk("init", loc + ("y",))


# ------------------------------------------------------------------ the mask of a search
def visits(ctx, g, t, lo, hi, what, side):
    """the index takes each value from lo to hi - 1"""
    if t.op != "phi" or t.a[0] not in g.ends:
        return None if undecided(ctx, g, what) else None
    s = sym(what)
    g.b[t] = s
    natural(g, s)
    S, F, node = g.ends[t.a[0]]
    car = carried(g, t.a[0]).get(t.a[1])
    A = alg(g)
    try:
        if car is None:
            raise Shape("not carried")
        first, nxt, u = A.sc(car[1]), A.sc(car[2]), upper(g, A, t.a[0], t)
    except Shape as e:
        undecided(ctx, g, "%s (%s)" % (what, e))
        return None
    if u is None:
        undecided(ctx, g, what + " (end)")
        return None
    same(ctx, g, node, what + ":first", "the first %s of a search" % what, first, lo, side)
    # a search over no cell at all is the same as one that starts after its end
    same(ctx, g, node, what + ":last", "the last %s of a search" % what, u, hi, side)
    same(ctx, g, node, what + ":step", "every %s of a search is visited" % what, nxt, s + const(1), side)
    for S2, F2, n in g.h.brk:
        if n is node and F2.uid == F.uid and not any(f.op in ("<", "<=") and t in f.a and not pol for f, pol in S2.facts.items()):
            undecided(ctx, g, what + " (another way out)")
    return s


def masked(ctx):
    for fn in pick(ctx, KH + "compute_key_point_mask"):
        g = effects(ctx, None, fn=fn, deny=("log_error",))
        X, Y, side = counts(g)
        r = sym("radius")
        pt = vecn("place", 2)
        g.b[param(g, 0)] = pt
        px, py = pt.e
        g.b[param(g, 2)] = r
        natural(g, r)
        side = And(side, ge(r, const(1)))
        # the cell of the place searched
        cx, cy = sym("cell x"), sym("cell y")
        for t in closure(g.E, [w.val for w in g.w if w.val is not None] + [a for c in g.c for a in c.args if a is not None]):
            if t.op in ("call", "+", "-", "phi") and t not in g.b and any(x is param(g, 0) or x.op == "init" and x.a[0][0] == root(g, 0) for x in subterms(t)):
                try:
                    v = alg(g).sc(t)
                except Shape:
                    continue
                for s, want in ((cx, cell(px, X)), (cy, cell(py, Y))):
                    if equal(v, want):
                        g.b[t] = s
        natural(g, cx, cy)
        side = And(side, ge(cx, const(0)), ge(cy, const(0)), lt(cx, X), lt(cy, Y))
        Z, M = (THIS, "_searchSpaceIndexContainer"), (root(g, 1),)
        got = []
        for e in g.exits:
            v = e.val
            for w in g.w:
                a = at(w.loc)
                if a is not None and len(a[1]) == 2 and w not in got and "Mat" in str(w.F.fn.qn) or a is not None and len(a[1]) == 2 and w not in got:
                    got.append(w)
        got = [w for w in got if cval(w.val) is not None]
        if not got:
            undecided(ctx, g, "mask")
            continue
        for w in got:
            row, col = at(w.loc)[1]
            ctx.item("%s: the mask marks a keypoint" % g.sid)
            if number(row) is None:
                undecided(ctx, g, "row of the mask")
            if cval(w.val) == 0:
                undecided(ctx, g, "keypoints left out of the mask")
                continue
            # the keypoint is an element of a cell's list
            p = place(col)
            a = at(p[:3]) if p is not None and p[:2] == Z and len(p) > 3 else None
            if a is None or len(a[1]) != 1:
                undecided(ctx, g, "keypoint marked: %s" % show(col)[:80])
                continue
            ij = cells(g, a[1][0], X)
            if ij is None:
                undecided(ctx, g, "cell searched: %s" % show(a[1][0])[:80])
                continue
            i, j = ij
            lo = lambda c: extremum("max", c - r, const(0))
            hi = lambda c, n: extremum("min", c + r + const(1), n)
            a_, b_ = visits(ctx, g, i, lo(cy), hi(cy, Y), "row", side), visits(ctx, g, j, lo(cx), hi(cx, X), "column", side)
            if a_ is None or b_ is None:
                continue
            try:
                same(ctx, g, w.node, "cell", "the cell searched is the one where keypoints are put", alg(g).sc(a[1][0]), a_ * X + b_, side)
            except Shape as e:
                undecided(ctx, g, "cell searched (%s)" % e)
            # the condition
            kx, ky = sym("keypoint x"), sym("keypoint y")
            free_ = opaque("matched")
            conds = [t for q in (w.S.pc or ()) for t, _ in q]
            for t in closure(g.E, conds):
                if t.op == "init" and len(t.a[0]) > 2 and t.a[0][:2] == (THIS, "_keypoints"):
                    b = at(t.a[0])
                    c = at(t.a[0][:3])
                    if b is not None and c is not None and c[1] == [col] and number(b[1][-1]) in (0, 1):
                        g.b[t] = (kx, ky)[number(b[1][-1])]
            own = lambda t: t.op == "init" and at(t.a[0]) is not None and at(t.a[0])[0] == M and at(t.a[0])[1] == [col]

            def hook(t):
                return free_ if own(t) else None
            P = pred(g, hook=hook)
            d = (kx - px) * (kx - px) + (ky - py) * (ky - py)
            ctx.item("%s: condition of the mask" % g.sid)
            inner_ = [(t, p) for q in live(g, w) for t, p in q]
            loopy = set()
            for q in (w.S.pc or ()):
                for t, p_ in q:
                    if any(k in (i.a[0], j.a[0]) and g.ends[k][0].facts.get(t) is p_ for k in t._ls if k in g.ends) and not own(t) and not any(short(x) in ("squaredNorm", "norm") for x in subterms(t)):
                        loopy.add((t, p_))
            pc = frozenset(frozenset(x for x in q if x not in loopy) for q in live(g, w))
            decide(ctx, g, w.node, "mask", "a keypoint is a candidate exactly when it is not matched yet and at most 30 pixels away", P.pc(pc),
                   And(Not(free_), le(d, const(900))), integral=frozenset(g.ints))
        for e in g.exits:
            ctx.item("%s: the mask is empty at first, and has one place per descriptor" % g.sid)
            z = [t for t in closure(g.E, [e.val]) if t.op == "call" and short(t) in ("zeros", "ones")]
            if any(short(t) == "ones" for t in z):
                ctx.violation("%s:ones" % g.sid, where(fn), "every keypoint is a candidate")
            for t in z:
                a = [x for x in t.a[1:] if isinstance(x, T)]
                if len(a) >= 2 and a[1] is not mine(g, "_descriptors", "rows"):
                    undecided(ctx, g, "size of the mask")
            if not z:
                undecided(ctx, g, "mask at first")


def place(t):
    """path of what the term reads, as it was at entry"""
    return t.a[0] if t.op == "init" else None


def cells(g, t, X):
    """indices (row, column) in row * columns + column"""
    ps = [x for x in subterms(t) if x.op == "phi" and x.a[0] in g.ends]
    if len(set(ps)) != 2:
        return None
    a, b = sorted(set(ps), key=repr)
    A = alg(g)
    A.bind[a], A.bind[b] = sym("first index"), sym("second index")
    try:
        v = A.sc(t)
    except Shape:
        return None
    # the one that is multiplied is the row
    for p, q, s in ((a, b, sym("first index")), (b, a, sym("second index"))):
        at_ = next(iter(atoms(s)))
        o = next(iter(atoms(sym("second index") if p is a else sym("first index"))))
        big = [m for m in v.n if any(x == at_ for x, _ in m) and len(m) > 1]
        small = [m for m in v.n if any(x == o for x, _ in m) and len(m) > 1]
        if big and not small:
            return p, q
    return None


# ------------------------------------------------------------------ the nearest descriptor
def closest(ctx):
    for fn in pick(ctx, KH + "get_match_indexes"):
        g = effects(ctx, None, fn=fn, deny=("compute_key_point_mask", "log_error", "fill_keypoint_mask"))
        k = once(ctx, g, "knnMatch", "nearest descriptors")
        m = once(ctx, g, "compute_key_point_mask", "mask")
        if k is None or m is None:
            continue
        given(ctx, g, m, 0, lambda v: v is param(g, 0), "place", "candidates are searched around the point given")
        flags(ctx, g, m, 1)
        g.b[param(g, 3)] = const(30)
        ctx.item("%s: the search reaches the neighbouring cells" % g.sid)
        try:
            v = alg(g).sc(m.args[2]).const()
        except Shape:
            v = None
        if v is None:
            undecided(ctx, g, "radius in cells")
        elif v < 1:
            ctx.violation("%s:radius" % g.sid, where(fn, m.node), "a radius of 30 pixels searches %s cells around: neighbours at 30 pixels are not reached" % v)
        del g.b[param(g, 3)]
        given(ctx, g, k, 0, lambda v: v is param(g, 1), "query", "the descriptor compared is the one given")
        given(ctx, g, k, 1, lambda v: v is mine(g, "_descriptors"), "train", "it is compared with the descriptors of the frame")
        ctx.item("%s: two neighbours are asked for" % g.sid)
        v = cval(k.args[3])
        if v is None or v < 2:
            (undecided(ctx, g, "number of neighbours") if v is None else
             ctx.violation("%s:two" % g.sid, where(fn, k.node), "a second neighbour is never found: an ambiguous match is accepted"))
        ctx.item("%s: the candidates are those of the mask" % g.sid)
        if len(k.args) < 5 or short(k.args[4]) != "compute_key_point_mask":
            (ctx.violation("%s:masked" % g.sid, where(fn, k.node), "the mask is not used") if len(k.args) < 5 or k.args[4] is None or k.args[4].op in ("dflt", "call") and short(k.args[4]) in ("noArray", None)
             else undecided(ctx, g, "mask used"))
        outs = [w.val for w in g.w if w.node is k.node and w.val is not None and w.val.op == "out"]
        if not outs:
            undecided(ctx, g, "neighbours")
            continue
        o = outs[-1]
        n, q = sym("neighbours"), sym("ratio")
        g.b[mine(g, "_maxMatchDistance")] = q
        es = [c for c in calls(g, "emplace") + calls(g, "insert") if c.args and c.args[0] is not None]
        alls = closure(g.E, [a for c in g.c for a in c.args if a is not None] + [t for c in g.c for u in (c.S.pc or ()) for t, _ in u])
        ds = [sym("best distance"), sym("second distance")]
        for t in alls:
            p = down(t, o)
            if p is None and short(t) == "size" and len(t.a) > 1:
                p2 = down(t.a[1], o)
                if p2 == (0,):
                    g.b[t] = n
            elif p is not None and len(p) == 3 and p[0] == 0 and p[2] == "distance" and p[1] in (0, 1):
                g.b[t] = ds[p[1]]
        natural(g, n)
        none = opaque("nothing to search")

        def hook(t):
            if short(t) == "empty":
                p2 = down(t.a[1], o)
                if p2 == (0,):
                    return eq(n, const(0))
                if t.a[1] in (mine(g, "_keypoints"), mine(g, "_descriptors")):
                    return none
            return None
        P = pred(g, hook=hook)
        if not es:
            undecided(ctx, g, "match kept")
            continue
        kept = And(Not(none), Or(eq(n, const(1)), And(ge(n, const(2)), lt(ds[0], q * ds[1]))))
        when_any(ctx, g, es, "kept", "the best neighbour is kept exactly when it is alone or clearly better than the second", kept, P=P, side=ge(n, const(0)))
        for c in es:
            ctx.item("%s: the keypoint kept is the best neighbour" % g.sid)
            p = down(c.args[0], o)
            if p is None:
                undecided(ctx, g, "keypoint kept")
            elif p != (0, 0, "trainIdx"):
                ctx.violation("%s:best" % g.sid, where(fn, c.node), "the keypoint kept is not the best neighbour")
        for e in g.exits:
            ctx.item("%s: what is kept is returned" % g.sid)
            if e.val is not None and e.val.op == "dflt":
                decide(ctx, g, e.node, "returned", "nothing is returned only when nothing is found", P.pc(e.S.pc), Not(kept), mode="implies",
                       integral=frozenset(g.ints), side=ge(n, const(0)))


def flags(ctx, g, c, i):
    what = "keypoints that are matched already are left out"
    v = c.args[i]
    if v.op == "call" and short(v) in ("Zero", "Ones", "Constant") or v.op == "new" and not any(x is param(g, 2) for x in subterms(v)) and any(short(x) in ("Zero", "Ones") for x in subterms(v)):
        ctx.item("%s: %s" % (g.sid, what))
        return ctx.violation("%s:flags" % g.sid, where(g.fn, c.node), "not so: %s" % what)
    given(ctx, g, c, i, lambda v: v is param(g, 2), "flags", what)


def down(t, o):
    """path from the result o to this part of it"""
    p = ()
    while t.op == "fld":
        x = t.a[1]
        if isinstance(x, tuple):
            if len(x) == 3 and x[:2] in (("i", "at"), ("i", "[]")) and number(x[2]) is not None:
                x = number(x[2])
            elif x == ("i", "front"):
                x = 0
            else:
                return None
        p = (x,) + p
        t = t.a[0]
    return p if t is o else None


# ------------------------------------------------------------------ tracked points
def known(ctx):
    for fn in pick(ctx, KH + "get_tracking_match_index", lambda f: len(f.params) == 1):
        g = effects(ctx, None, fn=fn, deny=("log_error",))
        U = mine(g, "_uniqueIdsToKeypointIndex")
        i, x = sym("id"), sym("index under the id")
        g.b[param(g, 0)] = i
        natural(g, i)
        none, hit = opaque("no keypoint"), opaque("found")
        found = lambda t: short(t) == "find" and len(t.a) > 2 and t.a[1] is U and t.a[2] is param(g, 0)

        def hook(t):
            if short(t) == "empty" and t.a[1] is mine(g, "_keypoints"):
                return none
            if t.op == "==" and any(found(a) for a in t.a if isinstance(a, T)) and any(short(a) in ("end", "cend") for a in t.a if isinstance(a, T)):
                return Not(hit)
            if short(t) == "contains" and t.a[1] is U and t.a[2] is param(g, 0):
                return hit
            return None
        P = pred(g, hook=hook)
        for e in g.exits:
            for t in closure(g.E, [e.val]):
                if t.op == "init" and t.a[0][-1] == "second" and any(found(y) for z in t.a[0] if isinstance(z, tuple) for y in z if isinstance(y, T)):
                    g.b[t] = x
                elif t.op == "fld" and t.a[1] == "second" and any(found(y) for y in subterms(t)):
                    g.b[t] = x
                elif t.op == "init" and t.a[0][:2] == (THIS, "_uniqueIdsToKeypointIndex") and at(t.a[0]) and at(t.a[0])[1] == [param(g, 0)]:
                    g.b[t] = x
            P.A = alg(g)
            pieces(ctx, g, e.S, e.node, "index", "the index of a tracked point is the one kept under its id, -1 if there is none", e.val,
                   [(And(hit, gt(i, const(0)), Not(none)), x), (Not(And(hit, gt(i, const(0)), Not(none))), const(-1))], P=P, side=ge(i, const(0)))


def unmatched(ctx):
    for fn in pick(ctx, KH + "get_tracking_match_index", lambda f: len(f.params) == 2):
        g = effects(ctx, None, fn=fn, deny=("log_error", "get_tracking_match_index"))
        i, x = sym("id"), sym("tracked index")
        g.b[param(g, 0)] = i
        m = opaque("matched")
        is_x = lambda t: short(t) == "get_tracking_match_index" and len(t.a) > 2 and t.a[2] is param(g, 0)
        ts = closure(g.E, [e.val for e in g.exits] + [t for e in g.exits for u in (e.S.pc or ()) for t, _ in u])
        for t in ts:
            if is_x(t):
                g.b[t] = x
        natural(g, i, x)

        def hook(t):
            a = at(t.a[0]) if t.op == "init" else None
            return m if a is not None and a[0] == (root(g, 1),) and len(a[1]) == 1 and is_x(a[1][0]) else None
        P = pred(g, hook=hook)
        ok = And(gt(i, const(0)), ge(x, const(0)), Not(m))
        for e in g.exits:
            pieces(ctx, g, e.S, e.node, "index", "the index of a tracked point is given only when its keypoint is not matched yet, else -1", e.val,
                   [(ok, x), (Not(ok), const(-1))], P=P, side=And(ge(i, const(0)), ge(x, const(-1))))


# ------------------------------------------------------------------ visibility
def visible(ctx):
    """a point is visible exactly when it projects, inside of the screen; a plane when its boundary is"""
    for cls, names in (("MapPoint", ("to_screen_coordinates", "is_in_screen_boundaries")),
                       ("MapPoint2D", ("to_screen_coordinates", "clamp_to_screen")),
                       ("MapPlane", ("is_visible_in_screen_space",))):
        for fn in pick(ctx, "map_management::%s::is_visible" % cls):
            g = effects(ctx, None, fn=fn, deny=("to_screen_coordinates", "is_in_screen_boundaries", "clamp_to_screen", "to_camera_space",
                                                "is_visible_in_screen_space", "log_error", "get_inverse_depth_variance"))
            own = "_boundaryPolygon" if cls == "MapPlane" else "_coordinates"
            got = {n: [c for c in g.c if c.name == n] for n in names}
            ctx.item("%s: the feature itself is looked at" % g.sid)
            if not got[names[0]] or not any(x.op == "init" and own in x.a[0] for c in g.c if c.objval is not None for x in subterms(c.objval)):
                undecided(ctx, g, "visibility")
                continue
            if len(names) == 2:
                for c in got[names[1]]:
                    o = c.objval if names[1] == "is_in_screen_boundaries" else c.args[0]
                    if o is None or not any(x.op == "out" and names[0] in str(x.a[0]) for x in subterms(o)):
                        undecided(ctx, g, "projection tested")
            P = pred(g, hook=lambda t: opaque(short(t)) if short(t) in names else None)
            yes = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
            decide(ctx, g, None, "visible", "visible exactly when it projects, inside of the screen", yes, And(*[opaque(n) for n in names]))


# ------------------------------------------------------------------ map points
def points(ctx):
    for cls in ("MapPoint", "MapPoint2D"):
        for fn in pick(ctx, "map_management::%s::find_matches" % cls):
            point(ctx, fn, cls)


def point(ctx, fn, cls):
    g = effects(ctx, None, fn=fn, deny=("get_tracking_match_index", "get_match_indexes", "to_screen_coordinates", "get_keypoint",
                                        "log_error", "to_world_coordinates", "get_2D"))
    tr = calls(g, "get_tracking_match_index")
    se = calls(g, "get_match_indexes")
    ctx.item("%s: a tracked keypoint first, else a search" % g.sid)
    if not tr or not se:
        return undecided(ctx, g, "searches")
    x = sym("tracked index")
    seen = opaque("on screen")
    vals = closure(g.E, [a for c in g.c for a in c.args if a is not None] + [t for c in g.c for u in (c.S.pc or ()) for t, _ in u] + [e.val for e in g.exits])
    for c in tr:
        g.b[mine(g, "_id")] = sym("own id")
        value_is(ctx, g, c.node, "own", "the id under which the tracked keypoint is searched", c.args[0], sym("own id"))
        if len(c.args) > 1 and c.args[1] is not param(g, 2):
            undecided(ctx, g, "keypoints matched")
    for t in vals:
        if short(t) == "get_tracking_match_index":
            g.b[t] = x
    natural(g, x)
    sideX = ge(x, const(-1))
    P = pred(g, hook=lambda t: seen if short(t) == "to_screen_coordinates" else None)
    when_any(ctx, g, se, "search", "a search takes place exactly when there is no tracked keypoint and the point is on the screen",
             And(eq(x, const(-1)), seen), P=P, side=sideX)
    for c in se:
        v = c.args[0]
        ctx.item("%s: the search takes place around the projection of the point" % g.sid)
        if v.op == "out" and "to_screen_coordinates" in str(v.a[0]):
            pr = [k for k in calls(g, "to_screen_coordinates")]
            if any(k.args[0] is not param(g, 1) for k in pr):
                undecided(ctx, g, "projection")
            for k in pr:
                o = k.objval
                if o is not None and not any(y.op == "init" and "_coordinates" in y.a[0] for y in subterms(o)):
                    undecided(ctx, g, "point projected")
        elif v.op in ("dflt", "init", "c") or short(v) in ("Zero",):
            ctx.violation("%s:projection" % g.sid, where(fn, c.node), "the search does not take place around the projection of the point")
        else:
            undecided(ctx, g, "place of the search")
        given(ctx, g, c, 1, lambda v: v is mine(g, "_descriptor"), "descriptor", "the descriptor searched is that of the point")
        flags(ctx, g, c, 2)
        A = alg(g)
        ctx.item("%s: the radius of the search is at least that of the parameters" % g.sid)
        for ch, (v,), _ in cases(g, c.S, [c.args[3]]):
            try:
                r = A.sc(v).const()
            except Shape:
                r = None
            if r is None:
                undecided(ctx, g, "radius")
            elif r < 30:
                ctx.violation("%s:radius" % g.sid, where(fn, c.node), "the radius of the search is %s pixels" % r)
    # what is returned
    for e in g.exits:
        ctx.item("%s: what is found is returned" % g.sid)
        for ch, (v,), pcs in cases(g, e.S, [e.val]):
            c = And(P.pc(e.S.pc), *[P.pc(pc) for pc in pcs])
            kind = content(v)
            want = {"tracked": ge(x, const(0)), "search": And(eq(x, const(-1)), seen), "nothing": And(eq(x, const(-1)), Not(seen))}.get(kind)
            if want is None:
                undecided(ctx, g, "matches returned: %s" % show(v)[:60])
                continue
            decide(ctx, g, e.node, "returned:" + kind, "the tracked keypoint is returned when there is one, else what the search found (%s)" % kind, c, want, mode="implies", side=sideX, integral=frozenset(g.ints))
    # what is handed to the optimisation
    ps = [c for c in calls(g, "push_back") + calls(g, "emplace_back") if c.objloc and c.objloc[0] == root(g, 3)]
    ctx.item("%s: matches are handed to the optimisation" % g.sid)
    if not ps:
        if not any(c.objloc and c.objloc[0] == root(g, 3) for c in g.c) and not any(w.loc[0] == root(g, 3) for w in g.w):
            ctx.violation("%s:handed" % g.sid, where(fn), "matches are never handed to the optimisation")
        return undecided(ctx, g, "matches handed out")
    asked = opaque("asked")
    H = pred(g, hook=lambda t: asked if t is param(g, 4) else (seen if short(t) == "to_screen_coordinates" else None))
    for c in ps:
        m = [k for k in subterms(c.args[0]) if short(k) in ("make_shared",)]
        if not m or len(m[0].a) != 6:
            undecided(ctx, g, "feature handed out")
            continue
        m = m[0]
        i = m.a[5]
        ctx.item("%s: each match has its own keypoint" % g.sid)
        kp = [t for t in subterms(m.a[1]) if short(t) == "get_keypoint"]
        if kp and kp[0].a[2] is not i:
            (ctx.violation("%s:keypoint" % g.sid, where(fn, c.node), "the keypoint of a match is not the one of its index") if kp[0].a[2].op in ("fld", "call", "c", "init") else undecided(ctx, g, "keypoint"))
        elif not kp:
            undecided(ctx, g, "keypoint of a match")
        if m.a[2] is not mine(g, "_coordinates"):
            undecided(ctx, g, "estimate of a match")
        spread(ctx, g, m.a[3], c.node)
        own_id(ctx, g, m.a[4], c.node)
        src = listed(i)
        if src is None and not (short(i) == "get_tracking_match_index"):
            undecided(ctx, g, "matches handed out: %s" % show(i)[:60])
            continue
        if src is not None:
            kinds = {content(v) for ch, (v,), pcs in cases(g, c.S, [src])}
            if not kinds <= {"tracked", "search", "nothing"}:
                undecided(ctx, g, "matches handed out")
                continue
            # whatever was found, on every path
            cover = []
            for ch, (v,), pcs in cases(g, c.S, [src]):
                cover.append(And(H.pc(live(g, c)), *[H.pc(pc) for pc in pcs]) if content(v) != "nothing" else False)
            decide(ctx, g, c.node, "handed", "every match found is handed to the optimisation exactly when this is asked", Or(*cover),
                   And(asked, Or(ge(x, const(0)), And(eq(x, const(-1)), seen))), side=sideX, integral=frozenset(g.ints))


def spread(ctx, g, t, node):
    ctx.item("%s: its deviation is that of the estimate" % g.sid)
    cov = [x for x in subterms(t) if x.op == "init" and x.a[0][:2] == (THIS, "_covariance")]
    if short(t) not in ("cwiseSqrt", "sqrt") or not cov:
        if cov and not any(short(x) in ("cwiseSqrt", "sqrt") for x in subterms(t)) and not [x for x in subterms(t) if x.op == "phi"]:
            ctx.violation("%s:deviation" % g.sid, where(g.fn, node), "the deviation handed out is not the square root of the variance")
        else:
            undecided(ctx, g, "deviation")


def own_id(ctx, g, t, node):
    ctx.item("%s: its id is that of the map feature" % g.sid)
    if t is not mine(g, "_id"):
        (ctx.violation("%s:id" % g.sid, where(g.fn, node), "the id handed out is not that of the map feature") if t.op in ("init", "c", "fld", "phi") else undecided(ctx, g, "id"))


def listed(t):
    """the list this is an element of"""
    if t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][:2] == ("i", "elem"):
        return t.a[0]
    return None


def content(v):
    """what a set of matches contains"""
    v0 = v
    while v.op in ("upd", "agg") and v.a and isinstance(v.a[0], T) and not v.a[1:]:
        v = v.a[0]
    if v.op in ("dflt", "zero"):
        return "nothing"
    if short(v) == "get_match_indexes":
        return "search"
    if v.op == "mod" and v.a[0] in ("emplace", "insert") and content(v.a[1]) == "nothing":
        if len(v.a) > 2 and short(v.a[2]) == "get_tracking_match_index":
            return "tracked"
    return None


# ------------------------------------------------------------------ planes
def planes(ctx):
    for fn in pick(ctx, "map_management::MapPlane::find_matches"):
        g = effects(ctx, None, fn=fn, deny=("is_distance_similar", "is_normal_similar", "get_area", "inter_area", "log_error",
                                            "compute_plane_world_to_camera_matrix", "to_camera_space", "to_camera_coordinates"))
        n = sym("detected planes")
        every = closure(g.E, [a for c in g.c for a in c.args if a is not None] + [w.val for w in g.w if w.val is not None] +
                        [t for c in g.c + g.w for u in (c.S.pc or ()) for t, _ in u])
        for t in every:
            if short(t) == "size" and t.a[1] is param(g, 0):
                g.b[t] = n
        natural(g, n)
        sel = [w for w in g.w if w.val is not None and w.val.op == "phi" and w.val.a[0] in g.ends and w.loc != w.val.a[1] and len(w.loc) == 1 and w.open]
        sel = [w for w in sel if any(short(t) == "inter_area" for u in (w.S.pc or ()) for t0, _ in u for t in subterms(t0))]
        ctx.item("%s: the best plane is chosen among those detected" % g.sid)
        if len({w.loc for w in sel}) != 1:
            undecided(ctx, g, "plane chosen")
            continue
        w = sel[0]
        s = span(ctx, g, w.val, const(0), n, "detected plane")
        if s is None:
            continue
        natural(g, s)
        key = w.val.a[0]
        own = lambda t: t.op == "init" and at(t.a[0][:2]) is not None and t.a[0][0] == root(g, 0) and at(t.a[0][:2])[1] == [w.val]
        taken, near, along = opaque("matched"), opaque("distance similar"), opaque("normal similar")
        A1, A2, I, wide = sym("area projected"), sym("area detected"), sym("common area"), opaque("wide search")
        proj = lambda t: any(short(x) == "to_camera_space" and any(y.op == "init" and y.a[0][:2] == (THIS, "_boundaryPolygon") for y in subterms(x)) for x in subterms(t))
        for t in every:
            if short(t) == "get_area":
                if any(own(x) for x in subterms(t)):
                    g.b[t] = A2
                elif proj(t):
                    g.b[t] = A1
            elif short(t) == "inter_area" and any(own(x) for x in subterms(t)) and proj(t):
                g.b[t] = I
        S, F, node = g.ends[key]
        car = carried(g, key)
        best = [(loc, c) for loc, c in car.items() if loc != w.val.a[1] and loc != w.loc and cval(c[1]) == 0]
        ctx.item("%s: the best common area starts at 0" % g.sid)
        if not best and not any(x.op == "phi" and x.a[0] == key and x is not w.val for q in (w.S.pc or ()) for t, _ in q for x in subterms(t)):
            ctx.violation("%s:best" % g.sid, where(fn, w.node), "a plane replaces the one chosen whatever the common area of that one was")
            continue
        if len(best) != 1:
            undecided(ctx, g, "best common area")
            continue
        B = sym("best common area")
        g.b[best[0][1][0]] = B
        idx = car.get(w.loc)
        if idx is None:
            undecided(ctx, g, "index of the best plane")
            continue
        J = sym("index of the best plane")
        g.b[idx[0]] = J
        value_is(ctx, g, node, "none", "the index at first", idx[1], const(-1))

        inside = {t for q in (S.pc or ()) for t, p in q if p and t.op in ("<", "<=") and w.val in t.a}

        def hook(t):
            if t in inside:
                return True
            if t.op == "init":
                a = at(t.a[0])
                if a is not None and a[0] == (root(g, 2),) and a[1] == [w.val]:
                    return taken
            if t is param(g, 5):
                return wide
            for nm, o in (("is_distance_similar", near), ("is_normal_similar", along)):
                if short(t) == nm and any(own(x) for x in subterms(t)) and any(short(x) == "to_camera_coordinates" for x in subterms(t)):
                    return o
            return None
        th = alg(g).sc(cst(0.4000000059604645))
        Q, ratio = sym("overlap"), False
        for t in every:
            if t.op == "/" and len(t.a) == 2 and g.b.get(t.a[0]) is I and g.b.get(t.a[1]) is A2:
                g.b[t] = Q
                ratio = True
        P = pred(g, hook=hook)
        L, D = (Q, const(1)) if ratio else (I, A2)
        ok = And(Not(taken), near, along, gt(I, B),
                 Or(And(Not(wide), ge(L, th * D)), And(wide, ge(L, alg(g).sc(cst(0.4000000059604645 / 2)) * D))))
        facts = And(ge(B, const(0)), gt(A2, const(0)))      # an area in common is part of the detected one
        for loc, parts, what in ((w.loc, [(ok, s), (Not(ok), J)], "the plane chosen is the one with the largest common area among those that are not matched, similar and overlap enough"),
                                 (best[0][0], [(ok, I), (Not(ok), B)], "the best common area is that of the plane chosen")):
            overlap(ctx, g, S, node, what, S.read(loc), parts, P, facts)
        done(ctx, g, w, idx, A1, P)


def overlap(ctx, g, S, node, what, val, parts, P, facts):
    pieces(ctx, g, S, node, what[:8].strip(), what, val, parts, P=P, side=facts)


def done(ctx, g, w, idx, A1, P):
    """after the loop"""
    J = sym("index after all planes")
    after = idx[0]
    asked = opaque("asked")
    es = [c for c in calls(g, "emplace") + calls(g, "insert") if not c.open]
    ps = [c for c in calls(g, "push_back") + calls(g, "emplace_back") if c.objloc and c.objloc[0] == root(g, 3)]
    ctx.item("%s: the plane chosen is returned" % g.sid)
    if not es or not ps:
        return undecided(ctx, g, "plane returned")
    Q = pred(g, hook=lambda t: asked if t is param(g, 4) else None)
    Jv = sym("index of the best plane")
    natural(g, Jv)
    Q = pred(g, hook=lambda t: asked if t is param(g, 4) else None)
    side = And(ge(Jv, const(-1)), gt(A1, const(0)))
    when_any(ctx, g, es, "returned", "the plane chosen is returned, if there is one", ge(Jv, const(0)), P=Q, side=side)
    when_any(ctx, g, ps, "handed", "the plane chosen is handed to the optimisation exactly when this is asked", And(asked, ge(Jv, const(0))), P=Q, side=side)
    for c in es:
        value_is(ctx, g, c.node, "index", "the index returned", c.args[0], Jv)
    for c in ps:
        m = [k for k in subterms(c.args[0]) if short(k) == "make_shared"]
        if not m or len(m[0].a) != 6:
            undecided(ctx, g, "feature handed out")
            continue
        m = m[0]
        value_is(ctx, g, c.node, "handed:index", "the index handed out", m.a[5], Jv)
        ctx.item("%s: the detection handed out is the plane chosen" % g.sid)
        p = place(m.a[1])
        a = at(p[:2]) if p else None
        if a is None or a[0] != (root(g, 0),) or p[2:] != ("_parametrization",):
            undecided(ctx, g, "detection handed out")
        elif a[1] != [idx[0]]:
            ctx.violation("%s:detection" % g.sid, where(g.fn, c.node), "the detection handed out is not the plane chosen")
        if m.a[2] is not mine(g, "_parametrization"):
            undecided(ctx, g, "estimate handed out")
        spread(ctx, g, m.a[3], c.node)
        own_id(ctx, g, m.a[4], c.node)
