RULE = """
Values of the line and segment operations are rewritten to normal forms over symbolic points and compared with their
equations; the direction kept by a line is a normalised one after every operation that sets it. For intersections: on every
path that answers true the list of intersection points is known not to be empty (must-fact) and the answer is its first
point, computed on the two whole segments; a path that answers false leaves the output alone. A clamped segment keeps an
own end of the segment exactly when that end is in the screen, other ends are intersection points with the screen boundary.
"""
from formula import *
from preds import *
from loops import *


def run(ctx):
    for f in (directions, closest, kept, intersections, clamped):
        ctx.group(f)
    ctx.assume("Real arithmetic; Boost's intersection yields the points common to the boundary of the screen and the segment.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def tmpl(ctx, cls, name, pred=None, optional=False):
    fs = [f for f in ctx.prog.find(cls + "::" + name) if not f.raw.get("implicit") and not f.raw.get("defaulted") and "utils" in f.qn and
          dim(f) > 1 and (pred is None or pred(f))]
    if not optional:
        ctx.need(fs, cls + "::" + name)
    return fs


def dim(f):
    m = re.search(r"<(\d)>", f.qn) or re.search(r"VI(\d)@", f.id)
    return int(m.group(1)) if m else 2


def starts(ctx):
    return getter(ctx, "ILine::get_start_point"), getter(ctx, "Segment::get_end_point"), getter(ctx, "Line::get_normal")


def directions(ctx):
    S, E, N = starts(ctx)
    for fn in tmpl(ctx, "Segment", "compute_normal"):
        g = Fx(ctx, fn)
        n = dim(fn)
        s, e_ = vecn("s", n), vecn("e", n)
        g.b[g.this(*S)], g.b[g.this(*E)] = s, e_
        for e in g.exits:
            A = g.alg()
            compare(ctx, g, e, "direction%d" % n, "the direction of a segment is the normalised difference of its ends", lambda: A.mat(e.val),
                    lambda: normalized(e_ - s))
    for fn in tmpl(ctx, "Line", "compute_normal"):
        g = Fx(ctx, fn)
        for e in g.exits:
            ctx.item(g.sid + ": the direction of a line is the one kept")
            if e.val is not g.this(*N):
                t = e.val
                if t.op == "call" and callname(t) == "normalized" and t.a[1] is g.this(*N):
                    continue
                undecided(ctx, g, "direction")
    # what a line keeps is of unit length
    for name, k in (("Line", 1), ("set_normal", 0), ("set_point_and_normal", 1)):
        for fn in tmpl(ctx, "Line", name, lambda f: len(f.params) == k + 1 and "Line" not in f.params[0]["t"]):
            g = Fx(ctx, fn)
            n = dim(fn)
            v = vecn("v", n)
            g.b[g.par(k)] = v
            for e in g.exits:
                A = g.alg()
                compare(ctx, g, e, "unit%d" % n, "the direction kept by a line is the given one, normalised", lambda: A.mat(self_read(e, N)),
                        lambda: normalized(v))


def kept(ctx):
    S, E, N = starts(ctx)
    for cls, name, k, sets in (("ILine", "ILine", 1, [(S, 0)]), ("ILine", "set_start_point", 1, [(S, 0)]), ("Segment", "Segment", 2, [(S, 0), (E, 1)]),
                               ("Segment", "set_end_point", 1, [(E, 0)]), ("Segment", "set_points", 2, [(S, 0), (E, 1)]),
                               ("Line", "Line", 2, [(S, 0)]), ("Line", "set_point_and_normal", 2, [(S, 0)])):
        for fn in tmpl(ctx, cls, name, lambda f: len(f.params) == k and not re.search(r"\b(ILine|Line|Segment)<", f.params[0]["t"])):
            g = Fx(ctx, fn)
            for e in g.exits:
                for path, i in sets:
                    ctx.item("%s: argument %d is kept" % (g.sid, i))
                    got = self_read(e, path)
                    if got is not g.par(i):
                        compare(ctx, g, e, "kept%d" % i, "argument %d is kept" % i, lambda: g.alg().mat(got), lambda: g.alg().mat(g.par(i)))
    for cls in ("ILine", "Segment", "Line"):
        for fn in tmpl(ctx, cls, cls, lambda f: len(f.params) == 1 and re.search(r"\b(ILine|Line|Segment)<", f.params[0]["t"]), optional=True):
            g = Fx(ctx, fn, distinct=True)
            for e in g.exits:
                for path in [S] + ([E] if cls == "Segment" else []) + ([N] if cls == "Line" else []):
                    ctx.item("%s: a copy has the same %s" % (g.sid, path[-1]))
                    got = self_read(e, path)
                    if got is not g.par(0, *path):
                        if got.op in ("init", "dflt", "undef", "mod"):
                            ctx.violation("%s:copy-%s" % (g.sid, path[-1]), where(fn, e.node), "a copy does not have the same %s" % path[-1])
                        else:
                            undecided(ctx, g, "copy of " + str(path[-1]))


def closest(ctx):
    S, E, N = starts(ctx)
    for name in ("get_closest_point_on_line", "distance"):
        for fn in tmpl(ctx, "ILine", name):
            g = Fx(ctx, fn)
            d = dim(fn)
            s, p, n = vecn("s", d), vecn("p", d), vecn("n", d)
            g.b[g.this(*S)], g.b[g.par(0)] = s, p
            for e in g.exits:
                A = g.alg()
                A.hook = lambda t: n if t.op == "call" and callname(t) == "compute_normal" and t.a[1] is g.this() else None
                k = dot(p - s, n)
                foot = s + n.map(lambda x: x * k)
                compare(ctx, g, e, "%s%d" % (name, d), "the closest point is s + n (n.(p - s)), the distance p minus it", lambda: A.mat(e.val),
                        foot if name != "distance" else p - foot)


def result_of(g, e):
    """the intersection list read or tested at this exit"""
    ts = set(e.S.facts) | {g.out(e, 2) if len(g.fn.params) > 2 else g.out(e, 1)}
    return {t for t in closure(g.E, ts) if t.op == "out" and callname(t) == "intersection"}


def intersections(ctx):
    S, E, N = starts(ctx)
    for fn in pick(ctx, "utils::intersects", lambda f: len(f.params) == 3):
        g = Fx(ctx, fn)
        seg = "Segment<" in fn.params[0]["t"]
        d = 3 if "<3>" in fn.params[0]["t"] else 2
        for e in g.exits:
            if e.val is FALSE:
                ctx.item(g.sid + ": a negative answer leaves the point alone")
                if g.out(e, 2) is not g.par(2):
                    got = g.out(e, 2)
                    if got.op in ("upd", "mod", "agg"):
                        ctx.violation("%s:touched%d" % (g.sid, d), where(fn, e.node), "the point is written although the answer is false")
                continue
            if e.val is not TRUE:
                answer(ctx, g, e, d)
                continue
            rs = result_of(g, e)
            if len(rs) != 1:
                undecided(ctx, g, "intersection")
                continue
            r = rs.pop()
            P = Pred(g)
            size = sym("n")
            P.A.hook = lambda t: size if t.op == "call" and callname(t) == "size" and t.a[-1] is r else None
            P.hook = lambda t: eq(size, const(0)) if t.op == "call" and callname(t) == "empty" and t.a[-1] is r else None
            known = And(*[P.term(t) if pl else Not(P.term(t)) for t, pl in e.S.facts.items() if t.op != "call" or callname(t) != "intersection"])
            decide(ctx, g, e.node, "empty%d" % d, "a positive answer is given only for a list that is not empty", known, ge(size, const(1)),
                   mode="implies", integral=True, side=ge(size, const(0)))
            point(ctx, g, e, r, d)
            operands(ctx, g, e, r, S, E, d, seg)


def answer(ctx, g, e, d):
    """the answer is a computed truth value: it must imply a non empty list"""
    undecided(ctx, g, "answer")


def point(ctx, g, e, r, d):
    A = g.alg()
    q = vecn("q", d)

    def hook(t):
        for i in range(d):
            if t is proj_path(proj_path(r, (("i", "at", num(0)),)), (("i", "at", num(i)),)) or t is proj_path(r, (("i", "front"), ("i", "at", num(i)))):
                return q.e[i]
        return None
    A.hook = hook
    compare(ctx, g, e, "point%d" % d, "the point is the first intersection point", lambda: A.mat(g.out(e, 2)), q)


def ends_of(ctx, g, r, d, k, A):
    """the ends of the first k geometries of the intersection, or None"""
    out = []
    for a in [a for a in r.a[2:] if isinstance(a, T)][:k]:
        es = [x for x in a.a if isinstance(x, T)]
        if a.op != "vec" or len(es) != 2:
            return None
        out.append(es)
    try:
        out = [[M(d, 1, [A.sc(y) for y in x.a[1:]]) for x in es] for es in out]
    except Shape:
        return None
    return None if any(unknown_atoms(m) for es in out for m in es) else out


def either(es, a, b):
    return mequal(es[0], a) and mequal(es[1], b) or mequal(es[1], a) and mequal(es[0], b)


def operands(ctx, g, e, r, S, E, d, seg):
    """the two geometries intersected are the two segments, or parts of the two lines that begin at their points"""
    ctx.item(g.sid + (": the whole segments are intersected" if seg else ": what is intersected goes from the point of each line along its direction"))
    A = g.alg()
    par = []
    for i in (0, 1):
        par.append((vecn("s%d_" % i, d), vecn("e%d_" % i, d)))
        A.bind[g.par(i, *S)] = par[i][0]
        if seg:
            A.bind[g.par(i, *E)] = par[i][1]
    if not seg:
        A.hook = lambda t: par[0 if t.a[1] is g.par(0) else 1][1] if t.op == "call" and callname(t) == "compute_normal" and t.a[1] in (g.par(0), g.par(1)) else None
    got = ends_of(ctx, g, r, d, 2, A)
    if got is None:
        return undecided(ctx, g, "operands")

    def match(es, se):
        if seg:
            return either(es, *se)
        reach = (es[1] - es[0])
        k = next((k for k in range(1, 10001) if mequal(reach, se[1].map(lambda x: x * const(k)))), None)
        return mequal(es[0], se[0]) and k is not None
    if not (match(got[0], par[0]) and match(got[1], par[1]) or match(got[0], par[1]) and match(got[1], par[0])):
        if not seg:
            # a part given by a length that is not a whole number is not refused
            for es in got:
                for a, n in par:
                    if mequal(es[0], a) and not any(unknown_atoms(x) for x in es) and all(str(x) for x in es) and parallel(es[1] - es[0], n):
                        break
                else:
                    break
            else:
                return undecided(ctx, g, "operands")
        ctx.violation("%s:operands%d" % (g.sid, d), where(g.fn, e.node), "what is intersected is not the two " + ("segments" if seg else "lines"))


def parallel(a, b):
    n = len(a.e)
    return all(equal(a.e[i] * b.e[j], a.e[j] * b.e[i]) for i in range(n) for j in range(i))


class Screen(FPolicy):
    deny = DENY + ("is_in_screen_boundaries", "get_static_screen_boundary_polygon")


def clamped(ctx):
    S, E, N = starts(ctx)
    for fn in pick(ctx, "utils::clamp_to_screen"):
        g = Fx(ctx, fn, policy=Screen(), distinct=True)
        s, f = vecn("s", 2), vecn("f", 2)
        g.b[g.par(0, *S)], g.b[g.par(0, *E)] = s, f
        n = sym("n")
        inS, inE = opaque("start in screen"), opaque("end in screen")
        negative, whole = [], None
        for e in g.exits:
            outS, outE = e.S.read((("o", "param", fn.params[1]["n"]),) + tuple(S)), e.S.read((("o", "param", fn.params[1]["n"]),) + tuple(E))
            if e.val is FALSE:
                ctx.item(g.sid + ": a negative answer leaves the output alone")
                if outS is not g.par(1, *S) or outE is not g.par(1, *E):
                    undecided(ctx, g, "negative answer")
                negative.append(e)
                continue
            if e.val is not TRUE:
                undecided(ctx, g, "answer")
                continue
            try:
                cs = cases(g, e.S, [outS, outE])
            except Shape:
                undecided(ctx, g, "clamped ends")
                continue
            rs = {t for t in closure(g.E, list(e.S.facts) + [outS, outE]) if t.op == "out" and callname(t) == "intersection"}
            if len(rs) != 1:
                undecided(ctx, g, "intersection")
                continue
            r = rs.pop()
            A, where_is, o = reading(g, r, n, s, f, inS, inE)
            if whole is None:
                whole = ends_of(ctx, g, r, 2, 1, A)
                ctx.item(g.sid + ": the whole segment is intersected with the screen")
                if whole is None:
                    undecided(ctx, g, "operands")
                elif not either(whole[0], s, f):
                    ctx.violation(g.sid + ":operand", where(fn, e.node), "what is intersected with the screen is not the segment")
            for ch, (a, b), pcs in cs:
                P = Pred(g)
                P.A, P.hook = A, where_is
                try:
                    a, b = A.mat(a), A.mat(b)
                except Shape:
                    undecided(ctx, g, "clamped ends")
                    continue
                if unknown_atoms(a) or unknown_atoms(b):
                    undecided(ctx, g, "clamped ends")
                    continue
                kind = [next((k for k, v in (("start", s), ("end", f), ("o0", o[0]), ("o1", o[1])) if mequal(x, v)), None) for x in (a, b)]
                cond = And(*[P.pc(pc) for pc in pcs])
                ctx.item("%s: a clamped segment from %s to %s" % (g.sid, kind[0], kind[1]))
                want = {("start", "end"): And(inS, inE), ("start", "o0"): And(inS, Not(inE), eq(n, const(1))),
                        ("o0", "end"): And(inE, Not(inS), eq(n, const(1))), ("o0", "o0"): And(eq(n, const(1)), Not(inS), Not(inE)),
                        ("o0", "o1"): ge(n, const(2)), ("o1", "o0"): ge(n, const(2))}.get(tuple(kind))
                if want is None:
                    ctx.violation(g.sid + ":ends", where(fn, e.node), "a clamped segment goes from %s to %s" % tuple(kind))
                    continue
                decide(ctx, g, e.node, "clamp-%s-%s" % tuple(kind), "the clamped segment goes from %s to %s only when that is the part in the screen"
                       % tuple(kind), cond, want, mode="implies", integral=True, side=ge(n, const(0)))

        for e in negative:
            rs = {t for t in closure(g.E, list(e.S.facts)) if t.op == "out" and callname(t) == "intersection"}
            calls = [t for t in e.S.facts if t.op == "call" and callname(t) == "intersection"]
            if any(e.S.facts[t] is False for t in calls):
                continue
            if len(rs) != 1:
                undecided(ctx, g, "negative answer")
                continue
            A, where_is, o = reading(g, rs.pop(), n, s, f, inS, inE)
            P = Pred(g)
            P.A, P.hook = A, where_is
            ok = opaque("the intersection is computed")
            P.hook = lambda t: ok if t in calls else where_is(t)
            cond = And(*[P.pc(frozenset(frozenset(x for x in c if not any(u.op == "addr" for u in closure(g.E, [x[0]]))) for c in e.S.pc)), ok])
            decide(ctx, g, e.node, "refused", "a segment with a part in the screen is not refused", cond,
                   Or(Not(ok), And(eq(n, const(0)), Not(And(inS, inE))), ge(n, const(3))), mode="implies", integral=True, side=ge(n, const(0)))


def reading(g, r, n, s, f, inS, inE):
    """how the result r of the intersection and the tests of the ends are read"""
    A = g.alg()
    o = [vecn("o%d" % i, 2) for i in range(2)]

    def hook(t):
        if t.op == "call" and callname(t) == "size" and t.a[-1] is r:
            return n
        for i in range(2):
            for j in range(2):
                if t is proj_path(proj_path(r, (("i", "at", num(i)),)), (("i", "at", num(j)),)):
                    return o[i].e[j]
        return None
    A.hook = hook

    def where_is(t):
        if t.op == "call" and callname(t) == "empty" and t.a[-1] is r:
            return eq(n, const(0))
        if t.op == "call" and callname(t) == "is_in_screen_boundaries":
            try:
                v = A.mat(t.a[1])
            except Shape:
                return None
            return inS if mequal(v, s) else inE if mequal(v, f) else None
        return None
    return A, where_is, o
