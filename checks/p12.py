RULE = """
Effect analysis of every operation that takes an observation into an estimate (track, update, update_with_match and their
helpers, callees and the exceptions they throw looked through): at every exit that reports a failure (false, a negative
score, an exception that leaves the function) each data member of the object, base classes included, has the value number
it had at entry. Values restored before the exit compare equal; paths that contradict the comparisons made on them are left
out. An observation that is taken gives its descriptor to the point exactly when it has one. The moving flag
stored on success is, as a condition on each axis, |estimate - observation| > standard deviation.
"""
from formula import *
from preds import *
from loops import *

NAMES = ("track", "update", "update_with_cartesian", "update_with_match", "update_boundary_polygon")


def run(ctx):
    ctx.group(atomic)
    ctx.group(moving)
    ctx.group(described)
    ctx.assume("Real arithmetic; functions outside the repository do not throw; a covariance of the object found invalid ends the program.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def fields(prog, t, seen=None):
    """data members of the class, those of its bases first"""
    seen = set() if seen is None else seen
    out = []
    for r in prog.records.values():
        if r["t"] != t:
            continue
        if r["id"] in seen:
            continue
        seen.add(r["id"])
        for b in r["bases"]:
            out += fields(prog, b, seen)
        out += [f["n"] for f in r["fields"]]
    return list(dict.fromkeys(out))


def failed(v):
    c = cval(v) if v is not None else None
    return v is FALSE or c is not None and not isinstance(c, bool) and c < 0


def contradicted(g, S, ch):
    """whether the facts at S cannot hold when the joins in ch come from the chosen branches"""
    true = {t for t, p in S.facts.items() if p}
    for k, i in ch.items():
        pc = join_pcs(g.E).get(k)
        if pc and i < len(pc) and pc[i]:
            true |= {t for t, p in frozenset.intersection(*pc[i]) if p}
    for t, p in S.facts.items():
        u = simple(deep(g.E, t, ch))
        if u.op == "<" and p and cval(u.a[1]) is not None and cval(u.a[1]) <= 0 and \
                (u.a[0].op == "abs" or u.a[0].op == "call" and callname(u.a[0]) in ("norm", "squaredNorm")):
            return True
        if cval(u) is not None and bool(cval(u)) != p:
            return True
        if p or t.op != "call" or callname(t) not in ("isApprox", "double_equal"):
            continue
        if u in true or u.a[1] is u.a[2]:
            return True
        if any(w.op == "call" and callname(w) == callname(u) and {w.a[1], w.a[2]} == {u.a[1], u.a[2]} for w in true):
            return True
    return False


def simple(t, memo=None):
    """t with the members of constructed objects read"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    m = {}
    for u in subterms(t):
        if u.op == "fld" and u.a[0].op in ("agg", "upd", "init"):
            v = u.a[0]
            for el in u.a[1:]:
                v = project(v, el)
            if v is not u:
                m[u] = v
    memo[t] = r = subst(t, m) if m else t
    return r


def atomic(ctx):
    todo = []
    for n in NAMES:
        for fn in ctx.prog.find(n):
            if fn.cls and not fn.raw.get("cst") and not fn.raw.get("static") and not fn.raw.get("implicit") and \
                    ("tracking::" in fn.qn or "map_management::" in fn.qn) and "IMapFeature" not in fn.qn:
                todo.append(fn)
    ctx.need(todo, "operations on tracked features")
    for fn in todo:
        ctx.group(one, fn)


def one(ctx, fn):
    g = Fx(ctx, fn, distinct=True)
    names = fields(ctx.prog, fn.raw.get("clst"))
    if not names:
        return undecided(ctx, g, "members of " + str(fn.cls))
    bad = [(x, "reports a failure") for x in g.exits if failed(x.val)] + ([] if fn.raw.get("ne") else [(x, "throws") for x in g.throws])
    for x in g.exits:
        if x.val is not None and x.val not in (TRUE, FALSE) and cval(x.val) is None and str(fn.raw.get("ret")) == "bool":
            try:
                for ch, (v,), pcs in cases(g, x.S, [x.val]):
                    if failed(v):
                        bad.append((x, "reports a failure"))
                        break
            except Shape:
                undecided(ctx, g, "answer")
    for x, how in bad:
        for n in names:
            ctx.item("%s: %s is as before when it %s" % (g.sid, n, how))
            v = self_read(x, (n,))
            if v is g.this(n):
                continue
            try:
                cs = cases(g, x.S, [v] + [t for t in x.S.facts if t.op == "call" and callname(t) == "isApprox" or t.op == "<"])
            except Shape:
                cs = [({}, [v], [])]
            for ch, vs, pcs in cs:
                u = vs[0]
                if u is g.this(n) or contradicted(g, x.S, ch):
                    continue
                if failed(x.val) is False and x.val is not None and how != "throws" and not failed(deep(g.E, x.val, ch)):
                    continue
                if all(w.a[0] in ("normalize", "normalized") for w in subterms(u) if w.op == "mod") and all(w is g.this(n) or w.op == "init" and w.a[0] == g.this(n).a[0] and tuple(w.a[1:])[:1] == (n,) for w in subterms(u) if w.op == "init") and \
                        any(w.op == "init" for w in subterms(u)):
                    undecided(ctx, g, n + " when it " + how)
                    continue
                ctx.violation("%s:%s" % (g.sid, n), where(fn, x.node), "%s has been changed on a path that %s" % (n, how))
                break


def moving(ctx):
    for cls, op in (("tracking::Point", "track"), ("PointInverseDepth", "update_with_cartesian")):
        flag = getter(ctx, cls + "::is_moving")
        for fn in pick(ctx, cls + "::" + op):
            g = Fx(ctx, fn, policy=Whole(), distinct=True)
            z, x = vecn("z", 3), vecn("x", 3)
            s = vecn("s", 3)
            cov = M(3, 3, [s.e[i] * s.e[i] if i == j else sym("c%d%d" % (min(i, j), max(i, j))) for i in range(3) for j in range(3)])
            g.b[g.par(0)], g.b[g.par(1)] = z, cov
            if cls == "tracking::Point":
                g.b[g.this("_coordinates")] = x
            for e in g.exits:
                if failed(e.val):
                    continue
                P = Pred(g)
                P.hook = lambda t: any_of(P, t)
                P.A.hook = lambda t: reading(g, P.A, t, x)
                v = self_read(e, flag)
                if v is g.this(*flag):
                    ctx.item("%s: the moving flag" % g.sid)
                    ctx.violation("%s:moving-kept" % g.sid, where(fn, e.node), "the moving flag is not updated")
                    continue
                want = Or(*[gt(absr(x.e[i] - z.e[i]), absr(s.e[i])) for i in range(3)])
                got = P.term(v)
                squares = Or(*[gt((x.e[i] - z.e[i]) * (x.e[i] - z.e[i]), s.e[i] * s.e[i]) for i in range(3)])
                if leaves(got) and leaves(got) <= leaves(squares):      # the same comparison, of squares
                    want = squares
                decide(ctx, g, e.node, "moving", "moving means further than the standard deviation of the observation on some axis, in either direction",
                       got, want)


def absr(r):
    return sqrt(r * r)


class Whole(FPolicy):
    deny = DENY + ("to_world_coordinates", "from_cartesian", "compute_inverse_depth_covariance", "compute_cartesian_covariance", "get_new_state")


def reading(g, A, t, x):
    if t.op == "call" and callname(t) == "to_world_coordinates" and t.a[1] is g.this("_coordinates"):
        return x
    if t.op == "abs" or t.op == "call" and callname(t) in ("abs", "cwiseAbs", "fabs"):
        v = A.ev(t.a[0 if t.op == "abs" else 1])
        return v.map(absr) if isinstance(v, M) else absr(v) if isinstance(v, R) else None
    return None


def any_of(P, t):
    if t.op == "call" and callname(t) in ("any", "all") and t.a[1].op in ("<", "<="):
        try:
            a, b = P.A.ev(t.a[1].a[0]), P.A.ev(t.a[1].a[1])
        except Shape:
            return None
        if isinstance(a, M) and isinstance(b, M) and len(a.e) == len(b.e):
            return (Or if callname(t) == "any" else And)(*[(lt if t.a[1].op == "<" else le)(u, v) for u, v in zip(a.e, b.e)])
    return None


def described(ctx):
    """the descriptor of an observation that is taken replaces that of the point, when it has one"""
    import effects as EF
    for sfx in ("map_management::MapPoint::update_with_match", "map_management::MapPoint2D::update_with_match",
                "PointInverseDepth::update_with_cartesian"):
        for fn in pick(ctx, sfx):
            g = EF.effects(ctx, None, fn=fn, deny=DEEP)
            none = opaque("no descriptor")
            old = g.this("_descriptor")
            got = [(e, v, pcs) for e in g.exits if e.val is not None and e.val is not FALSE
                   for ch, (v,), pcs in EF.cases(g, e.S, [e.S.read((EF.THIS, "_descriptor"))])]
            new = {v for e, v, _ in got if v is not old}
            odd = [v for v in new if v.op not in ("init", "fld", "n") or show(v).startswith("this")]
            ctx.item("%s: the descriptor of an observation that is taken is kept" % g.sid)
            if odd or not got:
                undecided(ctx, g, "descriptor kept: %s" % [show(v)[:60] for v in odd])
                continue
            if not new:
                ctx.violation("%s:descriptor" % g.sid, where(fn), "the descriptor of an observation is never kept")
                continue
            P = EF.pred(g, hook=lambda t: none if t.op == "call" and callname(t) == "empty" and t.a[-1] in new else None)
            words = {show(v) for v in new} | {"empty", "escriptor"}
            free = (lambda l: "_matchIndexes" in show_leaf(l) or not any(w in show_leaf(l) for w in words),)        # conditions that do not look at descriptors
            for e, v, pcs in got:
                c = And(P.pc(e.S.pc), True if e.val is TRUE else P.term(e.val), *[P.pc(pc) for pc in pcs])
                if any(not free[0](l) for l in leaves(c) - leaves(none)):
                    undecided(ctx, g, "descriptor tested")
                elif v is old:
                    decide(ctx, g, e.node, "descriptor", "the descriptor stays only when the observation that is taken has none", c, none,
                           mode="implies", free=free)
                else:
                    decide(ctx, g, e.node, "described", "the descriptor changes only when the observation that is taken has one", c, Not(none),
                           mode="implies", free=free)


DEEP = ("log_error", "log_warning", "to_world_coordinates", "get_world_point_covariance", "is_depth_valid", "compute_cartesian_covariance",
        "from_cartesian", "compute_inverse_depth_covariance", "get_new_state", "is_covariance_valid", "build_kalman_filter")
