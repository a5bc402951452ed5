RULE = """
Every write of an element of the depth and cloud tables is collected with its indices, value and exact path condition at the
fixpoint of the enclosing loops (value numbering, normal forms over integers and reals). Rows and columns must run over the
whole image (start 0, step 1, bound, no other way out of the loop); indices, values and conditions are compared with the
specified ones: cells of the cloud contiguous in row order, back-projection of the pixel with its depth, positive depths only.
Both the parallel and the deterministic variant of the loops are analysed.
"""
from formula import *
from preds import *
from loops import *

C = "Depth_Map_Transformation::"
DET = (("MAKE_DETERMINISTIC",), lambda u: any(x in u for x in ("depth_map", "coordinates", "parameters", "utils")))


def run(ctx):
    ctx.group(construction)
    ctx.group(tables)
    for f in (cloud, rectified):
        ctx.group(f, "")
        ctx.variant(f, DET[0], DET[1], " (deterministic variant)")
    ctx.assume("Image width and height are multiples of the cell size; images of other sizes are outside the claim. Sums and "
               "products over the reals. A floor of a negative number converted to unsigned compares as out of the image.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


class Writes(LoopHooks):
    """element writes, loop exits and ranges of parallel loops"""

    def __init__(self):
        super().__init__()
        self.w, self.brk, self.par, self.quits = [], [], [], []

    def write(self, E, loc, val, S, F, node):
        self.w.append((loc, val, S.copy(), F, node))

    def loopbreak(self, E, S, F, node):
        self.brk.append((S.copy(), F, node))

    def call(self, E, name, callee, objloc, objval, args, arglocs, S, F, node):
        n = str(name).split("::")[-1].split("<")[0]
        if n == "parallel_for":
            self.par.append((args, F, node))
        if n in ("exit", "abort", "terminate", "quick_exit", "_Exit"):
            self.quits.append((n, S.copy(), F, node))


def fx(ctx, name, pred=None):
    h = Writes()
    g = Fx(ctx, pick1(ctx, C + name, pred), hooks=h)
    g.ends, g.h = h.ends, h
    return g


def cell(loc):
    """(path of the table, row, column) of an element of a matrix"""
    if len(loc) >= 2 and isinstance(loc[-1], tuple) and loc[-1][0] == "i":
        e = loc[-1]
        if e[1] in ("at", "[]") and len(e) == 4:
            return loc[:-1], e[2], e[3]
        if e[1] in ("at", "[]") and len(e) == 3 and len(loc) >= 3 and isinstance(loc[-2], tuple) and loc[-2][0] == "i" and \
                loc[-2][1] in ("ptr", "row", "[]", "at") and len(loc[-2]) == 3:
            return loc[:-2], loc[-2][2], e[2]
    return None


def same_cell(t, base, row, col):
    """the value read is the element of the table at that row and column"""
    if t.op != "init":
        return False
    c = cell(t.a[0])
    return c is not None and c[0] == base and c[1] is row and c[2] is col


class Grid:
    """rows and columns of one write, as symbols r and c"""

    def __init__(self, ctx, g, row, col, tag):
        self.g, self.row, self.col = g, row, col
        self.r, self.c = sym("row"), sym("column")
        self.W, self.H, self.cs = sym("width"), sym("height"), sym("cellSize")
        for n, v in (("_width", self.W), ("_height", self.H), ("_cellSize", self.cs)):
            g.b[g.this(n)] = v
        self.ok = True
        self.bound(ctx, row, self.r, self.H, "row", tag)
        self.bound(ctx, col, self.c, self.W, "column", tag)
        self.A = self.alg()

    def alg(self):
        A = self.g.alg()
        A.ints = {a for x in (self.r, self.c, self.W, self.H, self.cs) for m in x.n for a, _ in m}
        return A

    def bound(self, ctx, t, s, L, what, tag):
        g = self.g
        g.b[t] = s
        ctx.item("%s: every %s is visited%s" % (g.sid, what, tag))
        if t.op == "iter":
            key = t.a[0]
            for args, F, node in g.h.par:
                if len(key) > 2 and key[2] == id(node) and len(args) >= 3:
                    A = g.alg()
                    if not (equal(A.sc(args[0]), const(0)) and equal(A.sc(args[1]), L)):
                        ctx.violation("%s:%s" % (g.sid, what), where(g.fn, node), "the %ss visited are not all those of the image" % what)
                    return
            if len(key) > 2 and what in ("row", "column"):
                self.foreach(ctx, t, what)
            return
        if t.op == "phi" and t.a[0] in g.ends:
            key = t.a[0]
            S, F, node = g.ends[key]
            car = carried(g, key).get(t.a[1])
            A = g.alg()
            if car is None:
                self.ok = False
                return undecided(ctx, g, "loop over the %ss" % what)
            if not equal(A.sc(car[1]), const(0)) or not equal(A.sc(car[2]), s + const(1)):
                ctx.violation("%s:%s" % (g.sid, what), where(g.fn, node), "the %ss visited do not start at 0 or do not follow each other" % what)
            u = upper(g, A, key, t)
            if u is None:
                self.ok = False
                return undecided(ctx, g, "end of the loop over the %ss" % what)
            if not equal(u, L):
                ctx.violation("%s:%s" % (g.sid, what), where(g.fn, node), "the %ss visited end at %r, not %r" % (what, u, L))
            for S, F, n in g.h.brk:
                if n is node and not any(f.op in ("<", "<=") and t in f.a and not pol or f.op == "==" and t in f.a and pol
                                         for f, pol in S.facts.items()):
                    ctx.violation("%s:%s" % (g.sid, what), where(g.fn, node), "the loop over the %ss may stop before the last one" % what)
            return
        self.ok = False
        undecided(ctx, g, "%s index %s" % (what, show(t)[:60]))

    def foreach(self, ctx, t, what):
        pass      # Mat::forEach visits every element


def in_image(G):
    return And(ge(G.r, const(0)), lt(G.r, G.H), ge(G.c, const(0)), lt(G.c, G.W))


def condition(ctx, g, G, node, S, key, what, want, hook=None, nan=True):
    P = Pred(g)
    P.A = G.A
    P.hook = hook
    decide(ctx, g, node, key, what, P.pc(S.pc), want, side=in_image(G), nan=nan, integral=frozenset(G.A.ints))


def construction(ctx):
    f = pick1(ctx, C + "Depth_Map_Transformation", lambda f: len(f.params) == 3)
    h = Writes()
    g = Fx(ctx, f, hooks=h)
    for x in g.exits:
        for n, i in (("_width", 0), ("_height", 1), ("_cellSize", 2)):
            ctx.item("%s: keeps %s" % (g.sid, n))
            if self_read(x, (n,)) is not g.par(i):
                ctx.violation("%s:%s" % (g.sid, n), where(f, x.node), "%s is not the value given" % n)
    for n in ("_Xpre", "_Ypre", "_cellMap"):
        ctx.item("%s: %s has one element per pixel" % (g.sid, n))
        ctx.item("%s: %s is filled" % (g.sid, n))
        whole = [w for w in h.w if w[0] == (("o", "this"), n)]
        for loc, t, S, F, node in whole[:1]:
            a = [y for y in t.a[1:] if isinstance(y, T) and y.op != "ty"][:2]
            if t.op in ("new", "call") and len(a) == 2 and not (a[0] is g.par(1) and a[1] is g.par(0)):
                ctx.violation("%s:%s" % (g.sid, n), where(f, node), "%s is not height rows of width elements" % n)
        if not any(cell(w[0]) is not None and cell(w[0])[0] == (("o", "this"), n) for w in h.w):
            ctx.violation("%s:fill%s" % (g.sid, n), where(f), "%s is not filled at construction" % n)


def tables(ctx):
    g = fx(ctx, "init_matrices")
    seen = {}
    for loc, val, S, F, node in g.h.w:
        c = cell(loc)
        if c is None or len(c[0]) != 2 or c[0][0] != ("o", "this"):
            continue
        seen[c[0][1]] = seen.get(c[0][1], 0) + 1
        G = Grid(ctx, g, c[1], c[2], " for " + c[0][1])
        if not G.ok:
            continue
        fxx, fy, cx, cy = intrinsics(g)
        G.A = A = G.alg()
        n = c[0][1]
        if n == "_cellMap":
            q = lambda a: A.flo(a / G.cs)
            m = lambda a: a - G.cs * q(a)
            want = (q(G.r) * q(G.W) + q(G.c)) * G.cs * G.cs + m(G.r) * G.cs + m(G.c)
        elif n == "_Xpre":
            want = (G.c - cx) / fxx
        elif n == "_Ypre":
            want = (G.r - cy) / fy
        else:
            continue
        value_is(ctx, g, node, n, "%s of a pixel" % n, A, val, want)
        condition(ctx, g, G, node, S, n + ":all", "%s is set for every pixel" % n, True)
    for n in ("_Xpre", "_Ypre", "_cellMap"):
        ctx.item("%s: %s is filled" % (g.sid, n))
        if not seen.get(n):
            undecided(ctx, g, "%s is not filled element by element" % n)


def value_is(ctx, g, node, key, what, A, val, want):
    ctx.item("%s: %s" % (g.sid, what))
    try:
        got = A.sc(val)
    except Shape as e:
        return undecided(ctx, g, "%s (%s)" % (what, e))
    if not equal(got, want):
        if {a for a in unknown_atoms(got)} - unknown_atoms(want):
            return undecided(ctx, g, "%s: %r" % (what, sorted(map(aname, unknown_atoms(got)))[:2]))
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, node), "%s is %r, not %r" % (what, got, want))


def blank(ctx, g, i, what):
    """the output is emptied before it is filled; returns whether that is so"""
    root = ("o", "param", g.fn.params[i]["n"] or str(g.fn.params[i]["d"]))
    ctx.item("%s: the result has %s, all zero before it is filled" % (g.sid, what))
    return root, [(loc, val, S, F, node) for loc, val, S, F, node in g.h.w if loc == (root,)]


def depth_of(ctx, g, G, node):
    """normal form of the depth of the pixel"""
    z = sym("depth")
    root = ("o", "param", g.fn.params[0]["n"] or str(g.fn.params[0]["d"]))
    for path in ((("i", "at", G.row, G.col),), (("i", "ptr", G.row), ("i", "at", G.col)), (("i", "[]", G.row), ("i", "at", G.col)),
                 (("i", "ptr", G.row), ("i", "[]", G.col))):
        g.b[mk("init", (root,) + path)] = z
    return z


def zero_of(t, sizes, g):
    """a table of zeros of that many rows and columns"""
    if t.op == "call" and callname(t) in ("zeros", "Zero"):
        a = [x for x in t.a[1:] if isinstance(x, T) and x.op != "ty"]
        return len(a) == 2 and all(equal(g.alg().sc(x), s) for x, s in zip(a, sizes))
    return None


def emptied(ctx, g, i, sizes, what):
    root, ws = blank(ctx, g, i, what)
    if len(ws) != 1:
        if not ws:
            ctx.violation("%s:clear" % g.sid, where(g.fn), "the result keeps what it held before")
        return undecided(ctx, g, "how the result is emptied") if ws else None
    loc, val, S, F, node = ws[0]
    if S.pc is not None and frozenset() not in S.pc:
        ctx.violation("%s:clear" % g.sid, where(g.fn, node), "the result is not emptied in all cases")
        return root
    try:
        r = zero_of(val, sizes, g)
    except Shape:
        r = None
    if r is None:
        undecided(ctx, g, "how the result is emptied: " + show(val)[:80])
    elif not r:
        ctx.violation("%s:clear" % g.sid, where(g.fn, node), "the result is not a table of zeros of that size: %s" % show(val)[:80])
    return root


def position(g):
    """row and column given to the body of a Mat::forEach: (row, column, depth) terms"""
    out = {}
    for loc, val, S, F, node in g.h.w:
        for t in list(subterms(val)) + [x for e in loc if isinstance(e, tuple) for x in e if isinstance(x, T)]:
            for u in subterms(t):
                if u.op == "fld" and u.a[0].op == "iter" and u.a[0].a[1] == 1 and len(u.a[1]) == 3:
                    k = cval(u.a[1][2])
                    if k in (0, 1):
                        out.setdefault(k, u)
                        out.setdefault("z", mk("iter", u.a[0].a[0], 0))
    return out


def cloud(ctx, tag):
    g = fx(ctx, "get_organized_cloud_array")
    g.b[g.this("_width")], g.b[g.this("_height")] = sym("width"), sym("height")
    root = emptied(ctx, g, 1, (sym("width") * sym("height"), const(3)), "a row per pixel")
    if root is None:
        return
    ps = position(g)
    done = set()
    for loc, val, S, F, node in g.h.w:
        c = cell(loc)
        if c is None or c[0] != (root,):
            if loc[0] == root and len(loc) > 1:
                undecided(ctx, g, "write of " + showloc(loc)[:60])
            continue
        k = cval(c[2])
        m = cell(c[1].a[0]) if c[1].op == "init" else None
        ctx.item("%s: column %s of the row that the cell map gives for the pixel%s" % (g.sid, k, tag))
        if m is None or m[0] != (("o", "this"), "_cellMap"):
            if not ps and unknown_rows(c[1]):
                undecided(ctx, g, "row written: " + show(c[1])[:60])
            else:
                ctx.violation("%s:row" % g.sid, where(g.fn, node), "the row written is not the one of the cell map")
            continue
        if k not in (0, 1, 2):
            ctx.violation("%s:column" % g.sid, where(g.fn, node), "column %s written" % show(c[2]))
            continue
        done.add(k)
        row, col = m[1], m[2]
        if ps:
            G = Grid.__new__(Grid)
            G.g, G.row, G.col, G.ok = g, ps.get(0), ps.get(1), True
            G.r, G.c, G.W, G.H, G.cs = sym("row"), sym("column"), sym("width"), sym("height"), sym("cellSize")
            for t, s in ((ps.get(0), G.r), (ps.get(1), G.c)):
                if t is not None:
                    g.b[t] = s
            if row is not G.row or col is not G.col:
                ctx.violation("%s:row" % g.sid, where(g.fn, node), "the row written is that of another pixel")
                continue
            z = sym("depth")
            g.b[ps["z"]] = z
        else:
            G = Grid(ctx, g, row, col, tag)
            if not G.ok:
                continue
            z = depth_of(ctx, g, G, node)
        fxx, fy, cx, cy = intrinsics(g)
        G.A = A = G.alg()
        want = [(G.c - cx) / fxx * z, (G.r - cy) / fy * z, z][k]
        value_is(ctx, g, node, "value%d" % k, "coordinate %d of the point of a pixel%s" % (k, tag), A, val, want)
        condition(ctx, g, G, node, S, "depth%d" % k, "coordinate %d is set exactly for the pixels with a positive depth%s" % (k, tag),
                  gt(z, const(0)), hook=lambda t: False if t.op == "call" and callname(t) == "double_equal" else None)
    ctx.item("%s: the three coordinates are set%s" % (g.sid, tag))
    if done != {0, 1, 2}:
        undecided(ctx, g, "the coordinates set are %s" % sorted(done))


def unknown_rows(t):
    return t.op not in ("init", "+", "*", "-")


def rectified(ctx, tag):
    g = fx(ctx, "rectify_depth")
    g.b[g.this("_width")], g.b[g.this("_height")] = sym("width"), sym("height")
    ctx.item("%s: no pixel ends the process%s" % (g.sid, tag))
    for n, S, F, node in g.h.quits:
        ctx.violation("%s:%s" % (g.sid, n), where(g.fn, node), "a pixel that cannot be projected ends the process (%s)" % n)
    root = emptied(ctx, g, 1, (sym("height"), sym("width")), "the size of the image")
    if root is None:
        return
    n = 0
    for loc, val, S, F, node in g.h.w:
        c = cell(loc)
        if c is None or c[0] != (root,):
            if loc[0] == root and len(loc) > 1:
                undecided(ctx, g, "write of " + showloc(loc)[:60])
            continue
        # the pixel read: row and column of the depth used
        src = {}
        droot = ("o", "param", g.fn.params[0]["n"] or str(g.fn.params[0]["d"]))
        for u in subterms(val):
            if u.op == "init":
                m = cell(u.a[0])
                if m is not None and m[0] == (droot,):
                    src[(m[1], m[2])] = u
        if len(src) != 1:
            undecided(ctx, g, "the pixel read")
            continue
        n += 1
        (row, col), = src
        G = Grid(ctx, g, row, col, tag)
        if not G.ok:
            continue
        z = depth_of(ctx, g, G, node)
        fxx, fy, cx, cy = intrinsics(g)
        X, Y = sym("preX"), sym("preY")
        for u in closure(g.E, [val, c[1], c[2]]):
            for nm, s in (("_Xpre", X), ("_Ypre", Y)):
                if same_cell(u, (("o", "this"), nm), row, col):
                    g.b[u] = s
        Tm = matn("T", 4, 4)
        g.b[mk("init", (("g", "rgbd_slam::Parameters::_camera2toCamera1transformation"),))] = Tm
        G.A = A = G.alg()
        p = Tm.mul(M(4, 1, [X * z, Y * z, z, const(1)]))
        px, py, pz = p.e[:3]
        u, v = fn1("floor", fxx * px / pz + cx), fn1("floor", fy * py / pz + cy)
        value_is(ctx, g, node, "value", "the depth of a projected pixel is its depth seen from the main camera" + tag, A, val, pz)
        value_is(ctx, g, node, "row", "row of a projected pixel" + tag, A, c[1], v)
        value_is(ctx, g, node, "column", "column of a projected pixel" + tag, A, c[2], u)
        seen = And(gt(z, const(0)), gt(pz, const(0)))
        inside = And(gt(u, const(0)), gt(v, const(0)), lt(u, sym("width")), lt(v, sym("height")))
        condition(ctx, g, G, node, S, "seen", "a pixel is projected exactly when it has a depth, is in front of the main camera "
                  "and falls in its image" + tag, And(seen, inside),
                  hook=lambda t: False if t.op == "call" and callname(t) in ("hasNaN",) else None, nan=False)
    if not n:
        undecided(ctx, g, "no pixel is projected")
