RULE = """
Every write of the cell tables and every call of the growing, merging and output steps of the detection is collected with its
arguments and exact path condition at the fixpoint of the loops around it. Region growing: a cell is marked exactly when it is
in the grid, unassigned, not marked and mergeable at its own tolerance, before its four neighbours (each within the grid, no
other) are tried with the cell itself. A grown plane takes in exactly the marked planar cells, each leaving the histogram and
the unassigned set once; labels are positions in the list of planes plus one, at the place of the cell in row order (counters
are solved as functions of the loop indices). Connections are written in pairs. Output planes are compared field by field.
"""
from effects import *
from p16 import number, sizes, one_more

D = "Primitive_Detection::"
ALLD = ("init_plane_segment", "can_be_merged", "region_growing", "expand_segment", "fit_plane", "remove_point",
        "add_plane_segment_to_features", "cylinder_fitting", "get_points_from_most_frequent_bin", "grow_plane_segment_at_seed",
        "get_connected_components_matrix", "compute_plane_segment_boundary", "find_plane_segment_in_cylinder",
        "add_cylinder_to_features", "is_inlier_at", "get_local_to_global_mapping", "get_MSE_at",
        "Cylinder_Segment::Cylinder_Segment", "Cylinder::Cylinder", "CameraPolygon::CameraPolygon", "Polygon::Polygon",
        "Polygon::is_valid", "Polygon::boundary_length", "is_valid", "boundary_length", "primitives::Plane::Plane")


def run(ctx):
    for f in (growing, seeded, seeds, labelled, connected, merged, emitted, boundary, cylinders, in_cylinder, output_cylinders):
        ctx.group(f)
    ctx.assume("Grid sizes are at least one cell; unsigned wrap-around of coordinates does not occur within the grid. Order and "
               "choice of the seeds beyond the least error among the candidates is not claimed, nor is completeness of the merge "
               "of planes that touch only in the last row or column of the grid (not scanned).")


def fx(ctx, name, *inlined):
    return effects(ctx, D + name, deny=tuple(d for d in ALLD if d not in inlined and d != name))


def only(ctx, g, cs, what):
    ctx.item("%s: %s" % (g.sid, what))
    if len(cs) == 1:
        return cs[0]
    if not cs:
        ctx.violation("%s:%s" % (g.sid, what), where(g.fn), "not done: " + what)
    else:
        undecided(ctx, g, "%s: %d places" % (what, len(cs)))
    return None


def true_write(ctx, g, w, what, want=True):
    v = cval(w.val)
    ctx.item("%s: %s" % (g.sid, what))
    if v is None:
        undecided(ctx, g, what)
    elif bool(v) != want:
        ctx.violation("%s:%s" % (g.sid, what), where(g.fn, w.node), what + " does not hold: the value is %s" % v)


def growing(ctx):
    g = fx(ctx, "region_growing")
    x, y, H, V, n = sym("x"), sym("y"), sym("H"), sym("V"), sym("total")
    g.b.update({g.par(0): x, g.par(1): y, g.this("_horizontalCellsCount"): H, g.this("_verticalCellsCount"): V,
                g.this("_totalCellCount"): n})
    natural(g, x, y, H, V, n)
    I = x + H * y
    mp = (root(g, 3),)
    el, wh, odd = writes(g, mp)
    own = [w for w in el]
    ctx.item("%s: merged cells are marked" % g.sid)
    if not own:
        return ctx.violation("%s:mark" % g.sid, where(g.fn), "no cell is marked")
    if len(own) != 1:
        return undecided(ctx, g, "%d places where cells are marked" % len(own))
    w, ix = own[0]
    value_is(ctx, g, w.node, "index", "index of the cell marked", ix[0], I)
    true_write(ctx, g, w, "a merged cell is marked true")
    una, act, mer = opaque("unassigned"), opaque("marked"), opaque("mergeable")

    def hook(t):
        if reads(g, t, (THIS, "_isUnassignedMask"), I):
            return una
        if t.op in ("init",) and reads(g, t, mp, I):
            return act
        if t.op == "call" and str(t.a[0]).endswith("can_be_merged"):
            if mergeable(g, t, I):
                return mer
            if any(misread(g, y, I) for y in t.a[1:] if isinstance(y, T)):
                return opaque("mergeable, for another cell")
        if misread(g, t, I):
            return opaque("unassigned, for another cell")
        return None
    P = pred(g, hook=hook)
    inside = And(ge(x, const(0)), ge(y, const(0)), lt(x, H), lt(y, V), gt(n, const(0)))
    cond = And(lt(I, n), una, Not(act), mer)
    when(ctx, g, w, "when", "a cell is marked exactly when it is in the grid, unassigned, not marked and mergeable at its tolerance",
         cond, P=P, side=inside)
    want = {(-1, 0): gt(x, const(0)), (1, 0): lt(x, H - const(1)), (0, -1): gt(y, const(0)), (0, 1): lt(y, V - const(1))}
    got = {}
    patch = (THIS, "_planeGrid")
    for c in calls(g, "region_growing"):
        ctx.item("%s: a neighbour is tried after the cell is marked" % g.sid)
        try:
            A = alg(g)
            d = ((A.sc(c.args[0]) - x).const(), (A.sc(c.args[1]) - y).const())
        except Shape as e:
            undecided(ctx, g, "neighbour (%s)" % e)
            return
        if d not in want:
            if None in d:
                undecided(ctx, g, "neighbour")
                return
            ctx.violation("%s:neighbour" % g.sid, where(g.fn, c.node), "the cell at %s is tried as a neighbour" % (tuple(map(int, d)),))
            continue
        got.setdefault(d, []).append(c)
        if c.seq < w.seq:
            ctx.violation("%s:order" % g.sid, where(g.fn, c.node), "a neighbour is tried before the cell is marked (no end)")
        ctx.item("%s: neighbours are tried with the cell itself and the same marks" % g.sid)
        if not reads(g, c.args[2], patch, I):
            if c.args[2] is g.par(2) or elem(c.args[2]) is not None:
                ctx.violation("%s:patch" % g.sid, where(g.fn, c.node), "a neighbour is tried with another plane than the cell it is next to")
            else:
                undecided(ctx, g, "plane a neighbour is tried with")
        if c.arglocs[3] is not None and tuple(c.arglocs[3]) != mp:
            ctx.violation("%s:marks" % g.sid, where(g.fn, c.node), "a neighbour is tried with other marks")
    for d, lim in want.items():
        ctx.item("%s: neighbour %s is tried" % (g.sid, d))
        if d not in got:
            ctx.violation("%s:missing%d%d" % ((g.sid,) + d), where(g.fn), "the neighbour at %s is never tried" % (d,))
            continue
        when_any(ctx, g, got[d], "near%d%d" % d, "neighbour %s is tried exactly when the cell was marked and it is in the grid" % (d,),
                 And(cond, lim), P=P, side=inside)


def misread(g, t, I):
    """an element of one of the tables of cells, at an index that is understood and is not I"""
    e = elem(t)
    if e is None or e[0] not in [(THIS, x) for x in ("_planeGrid", "_cellDistanceTols", "_isUnassignedMask")] or len(e[1]) != 1:
        return False
    try:
        v = alg(g).sc(e[1][0])
    except Shape:
        return False
    return not unknown_atoms(v) and not equal(v, I)


def mergeable(g, t, I, plane=2):
    """can_be_merged(plane given, cell I, tolerance of cell I)"""
    a = [y for y in t.a[1:] if isinstance(y, T)]
    return len(a) == 3 and a[0] is g.par(plane) and reads(g, a[1], (THIS, "_planeGrid"), I) and \
        reads(g, a[2], (THIS, "_cellDistanceTols"), I)


def seeded(ctx):
    g = fx(ctx, "grow_plane_segment_at_seed")
    s, H, n, V = sym("seed"), sym("H"), sym("total"), sym("V")
    g.b.update({g.par(0): s, g.this("_horizontalCellsCount"): H, g.this("_totalCellCount"): n, g.this("_verticalCellsCount"): V})
    natural(g, s, H, n, V)
    cell = (THIS, "_planeGrid", ("i", "at", g.par(0)))
    c = only(ctx, g, calls(g, "region_growing"), "the region of the seed is grown")
    if c is None:
        return
    q = alg(g).flo(s / H)
    value_is(ctx, g, c.node, "x", "column of the seed", c.args[0], s - H * q)
    value_is(ctx, g, c.node, "y", "row of the seed", c.args[1], q)
    ctx.item("%s: it is grown from the seed's cell" % g.sid)
    grown = copied(c.args[2], cell)
    if grown is None:
        undecided(ctx, g, "plane grown")
    elif not grown:
        ctx.violation("%s:seedplane" % g.sid, where(g.fn, c.node), "the region is not grown from the cell of the seed")
    ctx.item("%s: with no cell marked" % g.sid)
    m = c.args[3]
    if m.op == "call" and str(m.a[0]).split("::")[-1] in ("Constant", "Zero"):
        k = 0 if str(m.a[0]).endswith("Zero") else cval([y for y in m.a[1:] if isinstance(y, T) and y.op != "ty"][-1])
        if k:
            ctx.violation("%s:fresh" % g.sid, where(g.fn, c.node), "all cells are marked before growing")
    else:
        undecided(ctx, g, "marks before growing")
    planar_seed, planar, marked = opaque("seed planar"), opaque("planar"), opaque("marked")
    mp = tuple(c.arglocs[3]) if c.arglocs[3] else None
    for w in g.w:
        for f in list(w.S.facts) + [w.val]:
            for u in subterms(f):
                if u.op in ("size", "call") and (u.op == "size" or str(u.a[0]).split("::")[-1] == "size") and u not in g.b and (
                        m in u.a or g.this("_planeGrid") in u.a or g.this("_isUnassignedMask") in u.a or
                        any(isinstance(z, T) and z.op == "out" and m in z.a for z in u.a)):
                    g.b[u] = n
    el, wh, odd = writes(g, (THIS, "_isUnassignedMask"))
    ctx.item("%s: cells taken are not unassigned any more" % g.sid)
    if not el:
        return ctx.violation("%s:taken" % g.sid, where(g.fn), "cells taken stay unassigned")
    if len(el) != 1:
        return undecided(ctx, g, "writes of the unassigned set")
    w, ix = el[0]
    if ix[0] is g.par(0):
        return ctx.violation("%s:taken" % g.sid, where(g.fn, w.node), "only the seed is marked as taken")
    i = span(ctx, g, ix[0], const(0), n, "cell")
    if i is None:
        return
    natural(g, i)
    loop = ix[0].a[0]
    this_cell = (THIS, "_planeGrid", ("i", "at", ix[0]))

    def hook(t):
        if t.op == "init" and t.a[0] == cell + ("_isPlanar",):
            return planar_seed
        if t.op == "init" and t.a[0] == this_cell + ("_isPlanar",):
            return planar
        if t.op == "fld" and t.a[0].op == "out" and t.a[1][:2] == ("i", "at") and t.a[1][2] is ix[0]:
            return marked
        return None
    P = pred(g, hook=hook)
    inside = And(ge(i, const(0)), lt(i, n))
    cond = And(planar_seed, planar, marked)
    true_write(ctx, g, w, "a cell taken is not unassigned", False)
    when(ctx, g, w, "taken", "the cells taken are exactly the marked planar ones", cond, P=P, side=inside)
    seedrm = []
    rem = []
    for c2 in calls(g, "remove_point"):
        if c2.args[0] is g.par(0):
            seedrm.append(c2)
        else:
            rem.append(c2)
    c2 = only(ctx, g, rem, "cells taken leave the histogram")
    if c2 is not None:
        value_is(ctx, g, c2.node, "removed", "cell that leaves the histogram", c2.args[0], i)
        when(ctx, g, c2, "leave", "the cells that leave the histogram are exactly the ones taken", cond, P=P, side=inside)
    c3 = only(ctx, g, calls(g, "expand_segment"), "cells taken are added to the plane")
    new = None
    if c3 is not None:
        new = c3.objloc
        ctx.item("%s: the cell added is the cell taken" % g.sid)
        if c3.args[0] is not mk("init", this_cell):
            if elem(c3.args[0]) is not None:
                ctx.violation("%s:added" % g.sid, where(g.fn, c3.node), "the cell added to the plane is not the cell taken")
            else:
                undecided(ctx, g, "cell added")
        when(ctx, g, c3, "expand", "the cells added to the plane are exactly the ones taken", cond, P=P, side=inside)
    # untried cells: one less per cell taken
    S, F, node = g.ends[loop]
    un = (root(g, 1),)
    car = carried(g, loop)
    ctx.item("%s: cells taken are tried" % g.sid)
    if un not in car:
        ctx.violation("%s:untried" % g.sid, where(g.fn, node), "the number of untried cells does not change")
    else:
        u = sym("untried")
        g.b[car[un][0]] = u
        pieces(ctx, g, S, node, "untried", "number of untried cells after one more cell", S.read(un),
               [(And(planar, marked), u - const(1)), (Not(And(planar, marked)), u)], P=pred(g, hook=hook), side=And(inside, planar_seed))
    # what becomes of the plane
    add, cyl, fit = calls(g, "add_plane_segment_to_features"), calls(g, "cylinder_fitting"), calls(g, "fit_plane")
    a = only(ctx, g, add, "a grown plane is added")
    f = only(ctx, g, fit, "a grown plane is fitted")
    k = only(ctx, g, cyl, "a grown region that is no plane is tried as a cylinder")
    if a is None or f is None or k is None:
        return
    ctx.item("%s: it is the fitted plane that is added, with the cells marked" % g.sid)
    if a.arglocs[0] is not None and new is not None and (tuple(a.arglocs[0]) != tuple(new) or f.objloc is None or tuple(f.objloc) != tuple(new)):
        ctx.violation("%s:which" % g.sid, where(g.fn, a.node), "the plane fitted or added is not the one grown")
    if mp is not None and a.arglocs[1] is not None and tuple(a.arglocs[1]) != mp or mp is not None and k.arglocs[1] is not None and tuple(k.arglocs[1]) != mp:
        ctx.violation("%s:marks" % g.sid, where(g.fn, a.node), "the cells given are not the ones marked")
    if not f.seq < a.seq:
        ctx.violation("%s:fit" % g.sid, where(g.fn, a.node), "the plane is added before it is fitted")
    cnt = [(loc, v) for loc, v in car.items() if loc != un and cval(v[1]) == 0 and v[0] is not ix[0] and advances(g, v)]
    fl = [(loc, v) for loc, v in car.items() if v[1].op in ("lit", "bool", "const") and cval(v[1]) in (False,) and isinstance(cval(v[1]), bool)]
    ctx.item("%s: number of cells taken" % g.sid)
    head = None
    for loc, v in cnt:
        if k.args[0] is v[0]:
            head = v[0]
            cc = sym("taken")
            g.b[head] = cc
            natural(g, cc)
            pieces(ctx, g, S, node, "number", "number of cells taken after one more cell", S.read(loc),
                   [(And(planar, marked), cc + const(1)), (Not(And(planar, marked)), cc)], P=pred(g, hook=hook),
                   side=And(inside, planar_seed))
    if head is None:
        return undecided(ctx, g, "number of cells taken")
    # conditions after the loop
    some = opaque("some cell taken")
    score, fitted = sym("score"), opaque("planar after fit")
    heads = {v[0] for loc, v in car.items()}
    for w2 in g.w:
        if w2.node is f.node and new is not None and w2.loc[:len(new)] == tuple(new):
            if w2.loc[-1] == "_score":
                g.b[w2.val] = score
            elif w2.loc[-1] == "_isPlanar":
                names = {w2.val: fitted}
    flags = {v[0] for loc, v in car.items() if isflag(g, v, S, loc)}

    def hook2(t):
        if t in flags:
            return some
        if t.op == "<" and t.a[0] is ix[0]:
            return False       # after the loop
        r = hook(t)
        return r
    P = pred(g, names, hook=hook2)
    # the least number of cells: some part of the number of cells of the grid
    least = sym("least number of cells")
    natural(g, least)
    for e4 in (a, k):
        for cube in e4.S.pc or ():
            for t, _ in cube:
                for u in subterms(t):
                    if u.op in ("trunc", "call") and u not in g.b and g.this("_totalCellCount") in subterms(u) and not (
                            {y for y in subterms(u) if y.op in ("init", "phi")} - {g.this("_totalCellCount")}):
                        g.b[u] = least
    P = pred(g, names, hook=hook2)
    ok = And(planar_seed, some, Not(lt(cc, least)), fitted)
    pos = And(ge(least, const(0)), ge(cc, const(0)))
    for c4, lim, what in ((a, gt(score, const(100)), "a plane is added exactly if it grew enough, is planar after the fit and scores more than 100"),
                          (k, And(Not(gt(score, const(100))), gt(cc, const(5))),
                           "a cylinder is tried exactly if the fitted plane scores at most 100, with more than 5 cells")):
        when(ctx, g, c4, "outcome", what, And(ok, lim), P=P, side=pos)
    ctx.item("%s: a seed that grew too little leaves the histogram" % g.sid)
    if not seedrm:
        ctx.violation("%s:seed" % g.sid, where(g.fn), "a seed that grows nothing stays in the histogram (no end)")
    else:
        decide(ctx, g, seedrm[0].node, "seed", "a seed that grew nothing leaves the histogram", Or(*[P.pc(live(g, c)) for c in seedrm]),
               And(planar_seed, Or(Not(some), lt(cc, least))), integral=frozenset(g.ints), side=pos)


def copied(t, cell):
    """t is a copy of the element at this place: True, False or None if not known"""
    if t.op == "agg":
        bad = [v.a[1] if v.op == "mod" and v.a[0] in ("normalize", "normalized") else v for p, v in t.a[1]]
        bad = [v for (p, _), v in zip(t.a[1], bad) if v is not mk("init", cell + tuple(p))]
        if not bad:
            return True
        if all(v.op == "init" and v.a[0][:len(cell) - 1] == cell[:-1] and v.a[0][len(cell) - 1] != cell[-1] for v in bad):
            return False
        return None
    if t is mk("init", cell):
        return True
    e = elem(t)
    return False if e is not None and e[0] == cell[:-1] else None


def advances(g, v):
    return any(u is v[0] for u in subterms(v[2])) or v[2].op == "phi"


def isflag(g, v, S, loc):
    """false before the loop, true once something was taken"""
    if cval(v[1]) is None or cval(v[1]):
        return False
    try:
        vals = [c[1][0] for c in cases(g, S, [S.read(loc)])]
    except Shape:
        return False
    return all(x is v[0] or cval(x) is True for x in vals) and any(cval(x) is True for x in vals)


from fractions import Fraction  # noqa: E402


def seeds(ctx):
    g = fx(ctx, "grow_planes_and_cylinders")
    c = only(ctx, g, calls(g, "grow_plane_segment_at_seed"), "planes are grown at seeds")
    if c is None:
        return
    t = c.args[0]
    ctx.item("%s: the seed is the candidate of least error" % g.sid)
    key = t.a[0] if t.op == "phi" else None
    if key is not None and key[0] == "lx":
        key = key[1:]
    car = carried(g, key) if key in g.ends else None
    if not car or t.a[1] not in car:
        return undecided(ctx, g, "seed")
    t = car[t.a[1]][0]
    S, F, node = g.ends[key]
    # pair (seed, error)
    ids = [u for u in closure(g.E, [S.read(t.a[1])]) if u.op == "fld" and u.a[0].op == "call" and str(u.a[0].a[0]).endswith("get_points_from_most_frequent_bin")]
    if len(set(ids)) != 1:
        return undecided(ctx, g, "candidate")
    cand = ids[0]
    err = mk("init", (THIS, "_planeGrid", ("i", "at", cand), "_MSE"))
    e = sym("error of the candidate")
    g.b[err] = e
    pair = [(loc, v) for loc, v in car.items() if loc != t.a[1] and err in closure(g.E, [v[2]])]
    if len(pair) != 1:
        if not pair:
            return ctx.violation("%s:least" % g.sid, where(g.fn, node), "the error of the seed found is not kept")
        return undecided(ctx, g, "least error")
    loc, v = pair[0]
    m = sym("least error")
    g.b[v[0]] = m
    P = pred(g)
    try:
        cs = cases(g, S, [S.read(t.a[1]), S.read(loc)])
    except Shape as x:
        return undecided(ctx, g, str(x))
    for ch, (sd, er), pcs in cs:
        cond = And(*[P.pc(p) for p in pcs])
        ctx.item("%s: seed and error are kept or replaced together" % g.sid)
        if sd is t and er is v[0]:
            decide(ctx, g, node, "keep", "a candidate with a smaller error replaces the seed", cond, Not(lt(e, m)), mode="implies")
        elif sd is cand and er is err:
            decide(ctx, g, node, "replace", "only a candidate with an error as small replaces the seed", cond, le(e, m), mode="implies")
        else:
            ctx.violation("%s:pair" % g.sid, where(g.fn, node), "seed %s goes with error %s" % (show(sd)[:40], show(er)[:40]))
    for S2, F2, n2 in g.h.brk:
        if n2 is not node or F2.uid != F.uid:
            continue
        sd, er = S2.read(t.a[1]), S2.read(loc)
        ctx.item("%s: the search stops before the last candidate only for an error of zero" % g.sid)
        if not (sd is cand and er is err or sd is t and er is v[0]):
            undecided(ctx, g, "search stopped early")
            continue
        decide(ctx, g, node, "stop", "the search stops before the last candidate only for an error of zero", P.known_reach(S2),
               le(e if er is err else m, const(0)), mode="implies", side=And(ge(e, const(0)), ge(m, const(0))))
    # counts handed over
    ctx.item("%s: the number of untried cells starts with the planar ones" % g.sid)
    for key2, (S2, F2, n2) in g.ends.items():
        if key2 == key:
            continue
        c2 = carried(g, key2).get(tuple(c.arglocs[1]) if c.arglocs[1] else None)
        if c2 is not None and c2[1] is not g.par(0):
            ctx.violation("%s:start" % g.sid, where(g.fn, n2), "the number of untried cells does not start with the planar ones")


def labelled(ctx):
    g = fx(ctx, "add_plane_segment_to_features")
    H, V = sym("H"), sym("V")
    g.b.update({g.this("_horizontalCellsCount"): H, g.this("_verticalCellsCount"): V})
    natural(g, H, V)
    c = only(ctx, g, [c for c in calls(g, "push_back") + calls(g, "emplace_back") if c.objloc == (THIS, "_planeSegments")], "the plane is added to the planes")
    if c is None:
        return
    ctx.item("%s: it is the plane given" % g.sid)
    if c.args[0] is not g.par(0):
        ctx.violation("%s:plane" % g.sid, where(g.fn, c.node), "another plane than the one given is added")
    grid_labels(ctx, g, (THIS, "_gridPlaneSegmentMap"), H, V,
                lambda t, i: t.op == "init" and reads(g, t, (root(g, 1),), i), (THIS, "_planeSegments"))


def label_value(ctx, g, w, lst):
    """the label is the number of planes once the new one is in the list"""
    n = sym("planes before")
    before = mk("init", lst)
    for u in subterms(w.val):
        if u.op in ("size", "call") and (u.op == "size" or str(u.a[0]).split("::")[-1] == "size"):
            v = [y for y in u.a if isinstance(y, T)][-1] if u.op == "call" else u.a[0]
            k = 0
            while v.op == "mod" and v.a[0] in ("push_back", "emplace_back", "reserve"):
                k += v.a[0] != "reserve"
                v = v.a[1]
            if v is before:
                g.b[u] = n + const(k)
    value_is(ctx, g, w.node, "label", "label of the cells of a new plane or cylinder (its place in the list plus one)", w.val, n + const(1))


def grid_labels(ctx, g, grid, H, V, ismark, lst):
    el, wh, odd = writes(g, grid)
    ctx.item("%s: the cells of the plane are labelled" % g.sid)
    if len(el) != 1 or len(el[0][1]) != 2:
        if not el and not wh and not odd:
            ctx.violation("%s:labels" % g.sid, where(g.fn), "the cells of the plane are not labelled")
        else:
            undecided(ctx, g, "labels")
        return
    w, ix = el[0]
    r = span(ctx, g, ix[0], const(0), V, "row")
    c = span(ctx, g, ix[1], const(0), H, "column")
    if r is None or c is None:
        return
    natural(g, r, c)
    label_value(ctx, g, w, lst)
    marks = set()
    for cube in w.S.pc or ():
        for t, pol in cube:
            e = elem(t)
            if e is not None and e[0] == (root(g, 1),) and len(e[1]) == 1:
                marks.add((t, e[1][0]))
    ctx.item("%s: the mark read is that of the cell in row order" % g.sid)
    if len(marks) != 1:
        return undecided(ctx, g, "marks read")
    (t, j), = marks
    ph = [u for u in subterms(j) if u.op == "phi" and u not in g.b]
    for u in ph:
        x = counter(g, u)
        if x is None:
            return undecided(ctx, g, "index of the mark")
        g.b[u] = x
    value_is(ctx, g, w.node, "rowmajor", "index of the mark of the cell labelled", j, r * H + c)
    mk_ = opaque("marked")

    def hook(u):
        for y in subterms(u):
            b = pointer(g.E, y.a[0]) if y.op == "fld" and y.a[0].op == "phi" else y
            if b.op == "init" and b.a[0][:len(grid)] == grid:
                return opaque("label of the cell: " + show(u)[:30])
        return None
    decide(ctx, g, w.node, "marked", "exactly the marked cells are labelled", pred(g, {t: mk_}, hook=hook).pc(live(g, w)), mk_,
           integral=frozenset(g.ints), side=And(ge(r, const(0)), lt(r, V), ge(c, const(0)), lt(c, H)),
           free=(lambda l: "label of the cell" in str(l),))


def connected(ctx):
    g = fx(ctx, "get_connected_components_matrix")
    R_, C_, n = sym("rows"), sym("cols"), sym("planes")
    g.b.update({g.par(0, "rows"): R_, g.par(0, "cols"): C_, g.par(1): n})
    natural(g, R_, C_, n)
    mat = None
    for w in g.w:
        a = at(w.loc)
        if a is not None and len(a[1]) == 2 and a[0][0] != THIS:
            mat = a[0]
    ctx.item("%s: connections are written" % g.sid)
    if mat is None:
        return undecided(ctx, g, "no connection is written")
    el, wh, odd = writes(g, mat)
    for w in wh:
        ctx.item("%s: no planes are connected at first" % g.sid)
        t = w.val
        if t.op == "call" and str(t.a[0]).split("::")[-1] in ("Constant",):
            a = [y for y in t.a[1:] if isinstance(y, T) and y.op != "ty"]
            if len(a) == 3 and (cval(a[2]) or not (a[0] is a[1] is g.par(1))):
                ctx.violation("%s:init" % g.sid, where(g.fn, w.node), "the matrix is not one row and column per plane, all false")
    seg = (root(g, 0),)
    # the pixels read
    pos = {}
    for w, ix in el:
        for j in ix:
            for u in subterms(j):
                e = elem(u)
                if e is not None and e[0] == seg and len(e[1]) == 2:
                    pos[u] = e[1]
    base = [e for e in pos.values() if all(x.op == "phi" for x in e)]
    if not base:
        return undecided(ctx, g, "cells compared")
    rt, ct = base[0]
    # the last row and column are left out, or scanned too
    r, c = sym("row"), sym("column")
    g.b[rt], g.b[ct] = r, c
    natural(g, r, c)
    A = alg(g)
    for t, s, L, what in ((rt, r, R_, "row"), (ct, c, C_, "column")):
        ctx.item("%s: every %s is visited" % (g.sid, what))
        car = carried(g, t.a[0]).get(t.a[1]) if t.a[0] in g.ends else None
        if car is None:
            undecided(ctx, g, "loop over the %ss" % what)
            continue
        u = upper(g, A, t.a[0], t)
        if not equal(A.sc(car[1]), const(0)) or not equal(A.sc(car[2]), s + const(1)):
            ctx.violation("%s:%s" % (g.sid, what), where(g.fn, g.ends[t.a[0]][2]), "the %ss visited do not start at 0 or do not follow each other" % what)
        elif u is None:
            undecided(ctx, g, "end of the loop over the %ss" % what)
        elif not (equal(u, L - const(1)) or equal(u, L)):
            ctx.violation("%s:%s" % (g.sid, what), where(g.fn, g.ends[t.a[0]][2]), "the %ss visited end at %r" % (what, u))
        else:
            g.full = getattr(g, "full", {})
            g.full[what] = equal(u, L)
    vals = {}
    for u, (a, b) in pos.items():
        d = ((A.sc(a) - r).const(), (A.sc(b) - c).const())
        if None in d:
            return undecided(ctx, g, "cells compared")
        vals.setdefault(d, sym("plane at %d,%d" % d))
        g.b[u] = vals[d]
    for w, ix in el:        # other reads of the same cells
        for cube in w.S.pc or ():
            for t, _ in cube:
                for u in subterms(t):
                    e = elem(u)
                    if e is not None and e[0] == seg and len(e[1]) == 2 and u not in g.b:
                        try:
                            d = ((A.sc(e[1][0]) - r).const(), (A.sc(e[1][1]) - c).const())
                        except Shape:
                            continue
                        if None not in d:
                            vals.setdefault(d, sym("plane at %d,%d" % d))
                            g.b[u] = vals[d]
    p0 = vals.get((0, 0))
    P = pred(g)
    A = alg(g)
    ints = frozenset(g.ints).union(*[atoms(v) for v in vals.values()])
    seen = {}
    for w, ix in el:
        true_write(ctx, g, w, "connected cells are marked true")
        try:
            i, j = A.sc(ix[0]) + const(1), A.sc(ix[1]) + const(1)
        except Shape:
            return undecided(ctx, g, "planes connected")
        d = [k for k, v in vals.items() if equal(v, i)], [k for k, v in vals.items() if equal(v, j)]
        if not d[0] or not d[1]:
            ctx.violation("%s:ids" % g.sid, where(g.fn, w.node), "rows %r and %r are connected, which are not the planes of the cells" % (i, j))
            continue
        seen.setdefault((d[0][0], d[1][0]), []).append(w)
    side = And(gt(n, const(0)), ge(r, const(0)), ge(c, const(0)), lt(r, R_ - const(1)), lt(c, C_ - const(1)))
    for d in ((0, 1), (1, 0)):
        for pr in (((0, 0), d), (d, (0, 0))):
            ctx.item("%s: connection of %s with %s" % (g.sid, pr[0], pr[1]))
            if pr not in seen:
                ctx.violation("%s:pair%s" % (g.sid, pr), where(g.fn), "the plane of the cell at %s is never connected to the one of the cell at %s" % pr)
                continue
            q = vals[d]
            decide(ctx, g, seen[pr][0].node, "when%s%s" % pr, "planes of neighbour cells are connected exactly when they are two planes",
                   Or(*[P.pc(w.S.pc) for w in seen[pr]]), And(gt(p0, const(0)), gt(q, const(0)), Not(eq(p0, q))), integral=ints, side=side)
    for pr in seen:
        if pr[0] != (0, 0) and pr[1] != (0, 0) or abs(pr[0][0] - pr[1][0]) + abs(pr[0][1] - pr[1][1]) != 1:
            ctx.violation("%s:far" % g.sid, where(g.fn, seen[pr][0].node), "planes of cells that are not neighbours are connected")


def merged(ctx):
    g = fx(ctx, "merge_planes")
    n = sym("planes")
    natural(g, n)
    seg = (THIS, "_planeSegments")
    con = None
    c0 = only(ctx, g, calls(g, "get_connected_components_matrix"), "the connected planes are found")
    if c0 is None:
        return
    for w in g.w:
        for f in list(w.S.facts) + [w.val]:
            for u in subterms(f):
                if u.op in ("size", "call") and u not in g.b and (
                        u.op == "size" and u.a[0] is mk("init", seg) or u.op == "call" and str(u.a[0]).split("::")[-1] in ("size", "rows", "cols") and
                        any(y is mk("init", seg) or isinstance(y, T) and y.op == "call" and str(y.a[0]).endswith("get_connected_components_matrix") for y in u.a)):
                    g.b[u] = n
    ctx.item("%s: for the planes of the grid" % g.sid)
    if c0.args[0] is not g.this("_gridPlaneSegmentMap"):
        ctx.violation("%s:map" % g.sid, where(g.fn, c0.node), "the connected planes are those of another map")
    value_is(ctx, g, c0.node, "count", "number of planes connected", c0.args[1], n)
    mats = [w.loc for w in g.w if w.val.op == "call" and str(w.val.a[0]).endswith("get_connected_components_matrix") and len(w.loc) == 1]
    ex = only(ctx, g, calls(g, "expand_segment"), "planes are merged")
    cb = only(ctx, g, calls(g, "can_be_merged"), "planes are tested before they are merged")
    if ex is None or cb is None or not mats:
        return
    con = mats[0]
    ret = [x.val for x in g.exits]
    # labels
    lab = None
    for w in g.w:
        a = at(w.loc)
        if a is not None and len(a[1]) == 1 and a[0][0] != THIS and len(a[0]) == 1 and a[0] != con:
            lab = a[0]
    el, wh, odd = writes(g, lab) if lab else ([], [], [])
    ctx.item("%s: a merged plane is labelled with the plane it was merged into" % g.sid)
    if not el:
        if not any(w for w in g.w if at(w.loc)):
            return undecided(ctx, g, "labels of merged planes")
        return ctx.violation("%s:label" % g.sid, where(g.fn), "merged planes keep their label")
    if len(el) != 1:
        return undecided(ctx, g, "labels of merged planes")
    w, ix = el[0]
    ct = ix[0]
    rt = None
    e = elem(w.val)
    if e is not None and e[0] == lab:
        rt = e[1][0]
    if rt is None and w.val.op == "phi" and w.val.a[0] in g.ends and ct.op == "phi" and w.val is not ct and len(w.val.a[1]) == 1:
        return ctx.violation("%s:label" % g.sid, where(g.fn, w.node), "a merged plane is not labelled with the label of the plane it is merged into")
    if rt is None or ct.op != "phi" or rt.op != "phi":
        return undecided(ctx, g, "label of a merged plane: " + show(w.val)[:60])
    r = span(ctx, g, rt, const(0), n, "plane")
    if r is None:
        return
    natural(g, r)
    c = span(ctx, g, ct, r + const(1), n, "other plane")
    if c is None:
        return
    natural(g, c)
    label = w.val

    def of_label(x):
        # the label of the row is not written inside its row: columns are greater
        return x is label or elem(x) == (lab, [rt])

    def is_target(loc):
        loc = tuple(loc)
        return len(loc) == len(seg) + 1 and loc[:-1] == seg and loc[-1][:2] in (("i", "at"), ("i", "[]")) and of_label(loc[-1][2])
    src = elem_of(cb.args[0])
    ctx.item("%s: the plane tested and merged is the other plane, into the plane of the label" % g.sid)
    for call_ in (ex, cb):
        if call_.objloc is not None and not is_target(call_.objloc):
            ctx.violation("%s:into" % g.sid, where(g.fn, call_.node), "the plane that grows is not the one of the label given")
        s2 = elem_of(call_.args[0])
        if s2 is None or s2[0] != seg or s2[1][0] is not ct:
            if s2 is None:
                undecided(ctx, g, "plane merged")
            else:
                ctx.violation("%s:from" % g.sid, where(g.fn, call_.node), "the plane merged is not the other plane")
    ctx.item("%s: distance limit of merged planes" % g.sid)
    value_is(ctx, g, cb.node, "limit", "distance limit of merged planes", cb.args[1], const(50))
    pa, pb, co, me = opaque("planar"), opaque("other planar"), opaque("connected"), opaque("mergeable")

    def hook(t):
        if t.op == "call" and str(t.a[0]).endswith("can_be_merged"):
            return me
        if t.op in ("fld", "init"):
            e = None
            if t.op == "fld" and t.a[1] == "_isPlanar":
                e = elem_of(t.a[0])
            elif t.op == "init" and t.a[0][-1] == "_isPlanar":
                e = at(t.a[0][:-1])
            if e is not None and e[0] == seg:
                return pa if of_label(e[1][0]) else pb if e[1][0] is ct else None
            e = elem(t)
            if e is not None and e[0] == con and len(e[1]) == 2 and e[1][0] is rt and e[1][1] is ct:
                return co
            if e is not None and e[0] == con and len(e[1]) == 2 and e[1][0] is ct and e[1][1] is rt:
                return co
            if e is not None and e[0] == con and len(e[1]) == 2 and set(e[1]) <= {rt, ct}:
                return opaque("connected to itself")
        return None
    P = pred(g, hook=hook)
    inside = And(ge(r, const(0)), lt(r, n), gt(c, r), lt(c, n))
    cond = And(pa, pb, co, me)
    when(ctx, g, ex, "merge", "planes are merged exactly when both are planar, connected and mergeable", cond, P=P, side=inside)
    when(ctx, g, w, "label", "exactly the merged planes take another label", cond, P=P, side=inside)
    for w2, jx in writes(g, con)[0]:
        true_write(ctx, g, w2, "planes that cannot be merged are not connected any more", False)
        if {jx[0], jx[1]} != {rt, ct}:
            ctx.violation("%s:unconnect" % g.sid, where(g.fn, w2.node), "other planes than the two tested are disconnected")
        when(ctx, g, w2, "unconnect", "only planes that cannot be merged are disconnected", Not(me), P=P, mode="implies", side=inside)
    ctx.item("%s: a plane that grew is fitted again" % g.sid)
    fs = calls(g, "fit_plane")
    if not fs:
        ctx.violation("%s:fit" % g.sid, where(g.fn), "planes that grew are not fitted again")
    for f in fs:
        if f.objloc is not None and not is_target(f.objloc):
            ctx.violation("%s:fit" % g.sid, where(g.fn, f.node), "the plane fitted is not the one that grew")
    # own labels first
    ctx.item("%s: every plane starts with its own label" % g.sid)
    for x in wh:
        if x.val.op == "mod" and x.val.a[0] in ("push_back", "emplace_back"):
            i = span(ctx, g, x.val.a[2], const(0), n, "label") if x.val.a[2].op == "phi" else None
            if i is None and x.val.a[2].op != "phi":
                value_is(ctx, g, x.node, "own", "first label of a plane", x.val.a[2], sym("label"))
    for v in ret:
        b = v
        while b.op in ("agg", "upd"):
            b = b.a[0]
        if b.op == "phi" and b.a[1] != lab:
            ctx.violation("%s:returned" % g.sid, where(g.fn), "other labels are returned")


def elem_of(t):
    """(path, indices) of the object that a term is, members written to it left aside"""
    while t.op in ("agg", "upd"):
        t = t.a[0]
    return elem(t)


def emitted(ctx):
    g = fx(ctx, "add_planes_to_primitives")
    n = sym("planes")
    natural(g, n)
    seg, lab = (THIS, "_planeSegments"), (root(g, 0),)
    for t in sizes(g, mk("init", seg)) | sizes(g, mk("init", lab)):
        g.b[t] = n
    out = (root(g, 2),)
    ctx.item("%s: the planes of the last image are dropped" % g.sid)
    cl = [c for c in calls(g, "clear") if c.objloc == out and always(c.S)]
    if not cl:
        if not [w for w in g.w if w.loc == out and w.val.op in ("dflt", "new")]:
            ctx.violation("%s:clear" % g.sid, where(g.fn), "planes of the last image are kept")
    em = only(ctx, g, [c for c in g.c if c.name in ("emplace_back", "push_back") and c.objloc == out], "planes are put out")
    bd = only(ctx, g, calls(g, "compute_plane_segment_boundary"), "boundaries are computed")
    st = only(ctx, g, [c for c in calls(g, "setTo") if c.objloc == (THIS, "_mask")], "the cells of the plane are masked")
    if em is None or bd is None:
        return
    e = elem_of(bd.args[0])
    if e is None or e[0] != seg or e[1][0].op != "phi":
        return undecided(ctx, g, "plane put out")
    it = e[1][0]
    i = span(ctx, g, it, const(0), n, "plane")
    if i is None:
        return
    natural(g, i)
    L = sym("label")
    g.b[mk("init", lab + (("i", "at", it),))] = L
    natural(g, L)
    cell = seg + (("i", "at", it),)
    planar, valid = opaque("planar"), opaque("valid polygon")
    nb, nl = sym("boundary points"), sym("boundary length")
    natural(g, nb, nl)

    def hook(t):
        if t.op == "init" and t.a[0] == cell + ("_isPlanar",):
            return planar
        if t.op == "call" and str(t.a[0]).endswith("::is_valid"):
            return valid
        return None
    for c in g.c:
        for f in c.S.facts:
            for u in subterms(f):
                if u.op in ("size", "call") and u not in g.b:
                    nm = "size" if u.op == "size" else str(u.a[0]).split("::")[-1]
                    if nm == "size" and any(isinstance(y, T) and y.op == "call" and str(y.a[0]).endswith("compute_plane_segment_boundary") for y in u.a):
                        g.b[u] = nb
                    elif nm == "boundary_length":
                        g.b[u] = nl
    P = pred(g, hook=hook)
    # conditions of the loop over the labels are over by then
    P0 = P
    inside = And(ge(i, const(0)), lt(i, n))
    ok = And(eq(i, L), planar, ge(nb, const(3)), valid, ge(nl, const(3)))
    loops_done = lambda t: None
    jt = None
    if st is not None:
        for cube in st.S.pc or ():
            for t, pol in cube:
                for u in subterms(t):
                    z = elem(u)
                    if z is not None and z[0] == lab and z[1][0] is not it:
                        jt = z[1][0]
    if jt is not None:
        done = jt
        h0 = hook

        def hook(t, h0=h0):
            if t.op in ("<", "<=") and done in t.a or t.op == "==" and done in t.a and lab not in [(elem(y) or (None,))[0] for y in t.a]:
                return t.op == "==" if False else (False if t.a[0] is done else None)
            return h0(t)
        P = pred(g, hook=hook)
    when(ctx, g, em, "when", "a plane is put out exactly when it has its own label, is planar, and its boundary is a valid polygon of 3 points",
         ok, P=P, side=inside)
    when(ctx, g, em, "only", "only a planar plane with its own label and a boundary of 3 points is put out", And(eq(i, L), planar, ge(nb, const(3))), P=P,
         mode="implies", side=inside)
    ctx.item("%s: the plane put out is the segment with the polygon of its boundary" % g.sid)
    e2 = elem_of(em.args[0])
    if e2 is not None and (e2[0] != seg or e2[1][0] is not it):
        ctx.violation("%s:segment" % g.sid, where(g.fn, em.node), "the plane put out is not the one whose boundary was computed")
    if bd.args[1] is not g.par(1):
        ctx.violation("%s:image" % g.sid, where(g.fn, bd.node), "the boundary is computed with another image")
    if bd.arglocs[2] is not None and tuple(bd.arglocs[2]) != (THIS, "_mask"):
        ctx.violation("%s:mask" % g.sid, where(g.fn, bd.node), "the boundary is computed with another mask")
    # the polygon
    poly = [u for a in em.args if a is not None for u in subterms(a) if u.op == "new" and "Polygon" in str(u.a[0]) and len(u.a) == 4]
    ctx.item("%s: polygon of the boundary, with the normal and center of the plane" % g.sid)
    if not poly:
        undecided(ctx, g, "polygon put out")
    if poly:
        b0 = poly[0].a[1]
        if not (b0.op == "call" and str(b0.a[0]).endswith("compute_plane_segment_boundary")):
            undecided(ctx, g, "boundary of the polygon")
        nv, d = vecn("n", 3), sym("d")
        g.b[mk("init", cell + ("_parametrization", "_normal"))] = nv
        g.b[mk("init", cell + ("_parametrization", "_d"))] = d
        cen = vecn("c", 3)
        g.b[mk("init", cell + ("_centroid",))] = cen
        try:
            A = alg(g)
            a, b = A.ev(poly[0].a[2]), A.ev(poly[0].a[3])
            if not mequal(a, nv):
                if unknown_atoms(a):
                    undecided(ctx, g, "normal of the polygon")
                else:
                    ctx.violation("%s:normal" % g.sid, where(g.fn, em.node), "the polygon is not given the normal of the plane")
            own = M(3, 1, [nv.e[k] * d.scale(-1) for k in range(3)])
            if not (mequal(b, own) or mequal(b, cen)):
                if unknown_atoms(b):
                    undecided(ctx, g, "center of the polygon")
                else:
                    ctx.violation("%s:center" % g.sid, where(g.fn, em.node), "the polygon is not given the center of the plane")
        except Shape as x:
            undecided(ctx, g, "polygon (%s)" % x)
    # the mask
    if st is None or jt is None:
        return undecided(ctx, g, "mask of the plane")
    zero = [w for w in g.w if w.loc == (THIS, "_mask") and cval(w.val) == 0 and w.seq < st.seq]
    ctx.item("%s: the mask starts empty" % g.sid)
    if not zero:
        if not any(c.name == "setTo" and c.objloc == (THIS, "_mask") and c is not st for c in g.c):
            ctx.violation("%s:empty" % g.sid, where(g.fn, st.node), "the mask keeps the cells of the plane before")
    else:
        decide(ctx, g, zero[0].node, "empty", "the mask is emptied for every plane", Or(*[P0.pc(w.S.pc) for w in zero]), And(eq(i, L), planar),
               mode="covers", integral=frozenset(g.ints), side=inside)
    car = carried(g, jt.a[0]).get(jt.a[1]) if jt.op == "phi" and jt.a[0] in g.ends else None
    if car is None:
        return undecided(ctx, g, "planes masked")
    start = alg(g).sc(car[1])
    if not (equal(start, i) or equal(start, const(0)) or equal(start, L)):
        return ctx.violation("%s:from" % g.sid, where(g.fn, st.node), "the planes masked start at %r" % start)
    j = span(ctx, g, jt, start, n, "plane of the same label")
    if j is None:
        return
    natural(g, j)
    Lj = sym("other label")
    g.b[mk("init", lab + (("i", "at", jt),))] = Lj
    natural(g, Lj)
    when(ctx, g, st, "masked", "exactly the planes of the same label are masked", And(eq(i, L), planar, eq(Lj, L)),
         P=pred(g, hook=h0), side=And(inside, ge(j, start), lt(j, n), ge(start, const(0))))
    ctx.item("%s: the cells masked are those labelled with the plane" % g.sid)
    a = st.args
    if cval(a[0]) is not None and cval(a[0]) <= 0:
        ctx.violation("%s:one" % g.sid, where(g.fn, st.node), "the cells are masked with %s" % cval(a[0]))
    same = cells_equal(g, a[1], (THIS, "_gridPlaneSegmentMap"))
    if same is None:
        undecided(ctx, g, "cells masked")
    else:
        value_is(ctx, g, st.node, "label", "label of the cells masked", same, j + const(1))


def cells_equal(g, t, grid):
    """the value compared with the cells of the grid"""
    if t.op == "new":
        t = t.a[-1]
    if t.op in ("==", "call") and len(t.a) >= 2:
        a, b = t.a[-2], t.a[-1]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and (x is mk("init", grid) or x.op == "phi" and x.a[1] == grid):
                return y
    return None


def boundary(ctx):
    g = effects(ctx, D + "compute_plane_segment_boundary", deny=("to_camera_coordinates", "get_point_distance"))
    em = only(ctx, g, [c for c in g.c if c.name in ("emplace_back", "push_back") and c.objloc is not None and len(c.args) >= 1], "boundary points are added")
    if em is None:
        return
    t = em.args[0]
    while t.op in ("new", "call") and not str(t.a[0]).endswith("to_camera_coordinates") and len([y for y in t.a if isinstance(y, T)]) == 1:
        t = [y for y in t.a if isinstance(y, T)][0]
    ctx.item("%s: the point added is the back-projection of a pixel" % g.sid)
    if not (t.op == "call" and str(t.a[0]).endswith("to_camera_coordinates")):
        return undecided(ctx, g, "point added: " + show(t)[:60])
    p = t.a[1]
    pos = {}
    for u in subterms(p):
        if u.op == "fld" and u.a[0].op == "iter" and u.a[0].a[1] == 1:
            pos[cval(u.a[1][2])] = u
    img = (root(g, 1),)
    dep = [u for u in subterms(p) if (elem(u) or (None,))[0] == img]
    if set(pos) - {0, 1} or not pos or len(set(dep)) != 1:
        return undecided(ctx, g, "pixel of a boundary point")
    r, c, z = sym("row"), sym("column"), sym("depth")
    for k, s in ((0, r), (1, c)):
        if k in pos:
            g.b[pos[k]] = s
    natural(g, r, c)
    side_ = const(20)
    half = const(10)
    for u in closure(g.E, [p]):
        if u.op == "call" and str(u.a[0]).split("::")[-1] in ("sqrtf", "sqrt") and cval(u.a[-1]) == 400:
            g.b[u] = const(20)
    e = elem(dep[0])
    value_is(ctx, g, em.node, "drow", "row of the depth read", e[1][0], r * side_ + half)
    value_is(ctx, g, em.node, "dcol", "column of the depth read", e[1][1], c * side_ + half)
    g.b[dep[0]] = z
    try:
        v = alg(g).ev(p)
        if isinstance(v, M) and len(v.e) == 3:
            ctx.item("%s: pixel back-projected" % g.sid)
            want = M(3, 1, [c * side_ + half, r * side_ + half, z])
            if not mequal(v, want):
                if unknown_atoms(v):
                    undecided(ctx, g, "pixel back-projected")
                else:
                    ctx.violation("%s:pixel" % g.sid, where(g.fn, em.node), "the pixel back-projected is not the center of the cell with its depth")
        else:
            undecided(ctx, g, "pixel back-projected")
    except Shape as x:
        undecided(ctx, g, "pixel back-projected (%s)" % x)
    mse, d, val = sym("MSE"), sym("distance"), sym("boundary value")
    g.b[g.par(0, "_MSE")] = mse
    for cube in em.S.pc or ():
        for f, _ in cube:
            for u in subterms(f):
                if u.op == "call" and str(u.a[0]).endswith("get_point_distance") and u.a[1] is g.par(0) and t in u.a:
                    g.b[u] = d
                if u.op == "iter" and u.a[1] == 0:
                    g.b[u] = val
    natural(g, val)
    lim = const(3) * sqrt(mse)
    when(ctx, g, em, "when", "a boundary cell's point is added exactly when it has a depth and is within three standard deviations of the plane",
         And(gt(val, const(0)), gt(z, const(0)), lt(d, lim), gt(d, lim.scale(-1))), side=And(ge(val, const(0)), ge(mse, const(0))))


def cylinders(ctx):
    g = fx(ctx, "add_cylinder_to_features")
    H, n = sym("H"), sym("cells")
    V = sym("V")
    g.b.update({g.this("_horizontalCellsCount"): H, g.par(1): n, g.this("_verticalCellsCount"): V})
    natural(g, H, n, V)
    mp, mc = sym("plane error"), sym("cylinder error")
    g.b[g.par(3, "_MSE")] = mp
    for w in g.w + g.c:
        for cube in w.S.pc or ():
            for f, _ in cube:
                for u in subterms(f):
                    if u.op == "call" and str(u.a[0]).endswith("get_MSE_at"):
                        ok = u.a[1] is g.par(0) and u.a[2] is g.par(2)
                        if ok:
                            g.b[u] = mc
    plane = lt(mp, mc)
    inl = opaque("inlier")
    for grid, lst, cond, what in (((THIS, "_gridPlaneSegmentMap"), (THIS, "_planeSegments"), plane, "plane"),
                                  ((THIS, "_gridCylinderSegMap"), (root(g, 4),), Not(plane), "cylinder")):
        push = only(ctx, g, [c for c in g.c if c.name in ("push_back", "emplace_back") and c.objloc == lst], "a new %s is added" % what)
        if push is None:
            continue
        when(ctx, g, push, "which" + what, "a part is kept as a %s exactly when its error says so" % what, cond)
        if what == "plane":
            ctx.item("%s: it is the merged plane" % g.sid)
            if push.args[0] is not g.par(3):
                ctx.violation("%s:plane" % g.sid, where(g.fn, push.node), "another plane is added")
        else:
            t = push.args[0]
            ctx.item("%s: the last cylinder, with the part" % g.sid)
            a, b = proj_path(t, ("first",)), proj_path(t, ("second",))
            k = sym("cylinders")
            for u in subterms(a):
                if u.op in ("size", "call") and (u.op == "size" or str(u.a[0]).split("::")[-1] == "size") and g.this("_cylinderSegments") in u.a:
                    g.b[u] = k
            value_is(ctx, g, push.node, "cylinder", "cylinder of the part", a, k - const(1))
            if b is not g.par(2):
                ctx.violation("%s:part" % g.sid, where(g.fn, push.node), "the part recorded is not the one given")
        el, wh, odd = writes(g, grid)
        ctx.item("%s: cells of the %s are labelled" % (g.sid, what))
        if len(el) != 1 or len(el[0][1]) != 2:
            undecided(ctx, g, "labels of the " + what)
            continue
        w, ix = el[0]
        maps = {u for j in ix for u in subterms(j) if u.op == "call" and str(u.a[0]).endswith("get_local_to_global_mapping")}
        if len(maps) != 1:
            undecided(ctx, g, "cell labelled")
            continue
        m, = maps
        col = m.a[-1]
        i = span(ctx, g, col, const(0), n, "cell of the " + what)
        if i is None:
            continue
        natural(g, i)
        cid = sym("cell")
        g.b[m] = cid
        natural(g, cid)
        q = alg(g).flo(cid / H)
        value_is(ctx, g, w.node, "row" + what, "row of the cell labelled", ix[0], q)
        value_is(ctx, g, w.node, "col" + what, "column of the cell labelled", ix[1], cid - H * q)
        label_value(ctx, g, w, lst)

        def hook(t):
            if t.op == "call" and str(t.a[0]).endswith("is_inlier_at") and t.a[1] is g.par(0) and t.a[2] is g.par(2) and t.a[3] is col:
                return inl
            return None
        when(ctx, g, w, "in" + what, "exactly the inlier cells of the part are labelled", And(cond, inl), P=pred(g, hook=hook),
             side=And(ge(i, const(0)), lt(i, n)))


def in_cylinder(ctx):
    g = fx(ctx, "find_plane_segment_in_cylinder")
    n = sym("cells")
    g.b[g.par(1)] = n
    natural(g, n)
    ex = only(ctx, g, calls(g, "expand_segment"), "cells of the part are merged")
    if ex is None:
        return
    ctx.item("%s: merged into the plane given" % g.sid)
    if ex.objloc is not None and tuple(ex.objloc) != (root(g, 3),):
        ctx.violation("%s:into" % g.sid, where(g.fn, ex.node), "cells are merged into something else")
    e = elem(ex.args[0])
    m = e[1][0] if e is not None and e[0] == (THIS, "_planeGrid") else None
    if m is not None and m.op == "phi" and m.a[0] in g.ends:
        return ctx.violation("%s:cell" % g.sid, where(g.fn, ex.node), "the cell merged is not the one of the part (its index in the part is used)")
    if m is None or m.op != "call" or not str(m.a[0]).endswith("get_local_to_global_mapping"):
        return undecided(ctx, g, "cell merged")
    col = m.a[-1]
    i = span(ctx, g, col, const(0), n, "cell")
    if i is None:
        return
    natural(g, i)
    inl, planar = opaque("inlier"), opaque("planar")

    def hook(t):
        if t.op == "call" and str(t.a[0]).endswith("is_inlier_at") and t.a[1] is g.par(0) and t.a[2] is g.par(2) and t.a[3] is col:
            return inl
        if t.op == "init" and t.a[0] == ex.args[0].a[0] + ("_isPlanar",):
            return planar
        return None
    P = pred(g, hook=hook)
    inside = And(ge(i, const(0)), lt(i, n))
    when(ctx, g, ex, "when", "exactly the planar inlier cells of the part are merged", And(inl, planar), P=P, side=inside)
    for x in g.exits:
        t = x.val
        ctx.item("%s: the answer is whether a cell was merged" % g.sid)
        if t.op != "phi" or t.a[0] not in g.ends:
            if cval(t) is not None:
                ctx.violation("%s:answer" % g.sid, where(g.fn, x.node), "the answer is always %s" % cval(t))
            else:
                undecided(ctx, g, "answer")
            continue
        car = carried(g, t.a[0]).get(t.a[1])
        S, F, node = g.ends[t.a[0]]
        if car is None or cval(car[1]) is None:
            undecided(ctx, g, "answer")
            continue
        if cval(car[1]):
            ctx.violation("%s:answer" % g.sid, where(g.fn, x.node), "the answer starts true")
        before = opaque("merged before")
        P2 = pred(g, {t: before}, hook=hook)
        decide(ctx, g, node, "answer", "the answer is whether a cell was merged", P2.term(S.read(t.a[1])), Or(before, And(inl, planar)), side=inside)


def output_cylinders(ctx):
    g = fx(ctx, "add_cylinders_to_primitives")
    out = (root(g, 1),)
    n = sym("cylinders")
    natural(g, n)
    for t in sizes(g, g.par(0)):
        g.b[t] = n
    ctx.item("%s: the cylinders of the last image are dropped" % g.sid)
    if not [c for c in calls(g, "clear") if c.objloc == out and always(c.S)]:
        ctx.violation("%s:clear" % g.sid, where(g.fn), "cylinders of the last image are kept")
    em = only(ctx, g, [c for c in g.c if c.name in ("emplace_back", "push_back") and c.objloc == out], "cylinders are put out")
    st = only(ctx, g, [c for c in calls(g, "setTo") if c.objloc == (THIS, "_mask")], "the cells of the cylinder are masked")
    if em is None or st is None:
        return
    e = elem(em.args[0])
    ix = e[1][0] if e is not None and e[0] == (THIS, "_cylinderSegments") else None
    it = None
    if ix is not None and ix.op == "init" and ix.a[0][-1] == "first":
        a = at(ix.a[0][:-1])
        if a is not None and a[0] == (root(g, 0),):
            it = a[1][0]
    ctx.item("%s: the cylinder put out is the one of the region" % g.sid)
    if it is None:
        if ix is not None and ix.op == "init" and ix.a[0][-1] == "second" or ix is not None and ix.op == "phi":
            return ctx.violation("%s:which" % g.sid, where(g.fn, em.node), "the cylinder put out is not the one of the region")
        return undecided(ctx, g, "cylinder put out")
    i = span(ctx, g, it, const(0), n, "cylinder")
    if i is None:
        return
    natural(g, i)
    ctx.item("%s: the cells masked are those labelled with the cylinder" % g.sid)
    same = cells_equal(g, st.args[1], (THIS, "_gridCylinderSegMap"))
    if same is None:
        undecided(ctx, g, "cells masked")
    else:
        value_is(ctx, g, st.node, "label", "label of the cells masked", same, i + const(1))
    if not [w for w in g.w if w.loc == (THIS, "_mask") and cval(w.val) == 0 and w.seq < st.seq]:
        ctx.violation("%s:empty" % g.sid, where(g.fn, st.node), "the mask keeps the cells of the cylinder before")
