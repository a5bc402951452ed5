RULE = """
Pose optimisation, from value numbers with exact path conditions. The orientation parameters and the quaternion are rewritten to
rational normal forms: they invert each other and the Jacobian is the derivative. The features are split by one loop: each goes
to exactly one set, decided by its own answer for the transformation of the given pose; the score is the sum over the inliers.
The residual vector is written segment by segment. RANSAC: the pose, score and sets kept are those of one iteration, replaced
only by a better one; what is returned is the optimisation on these inliers, started from this pose. The covariance is the
sample covariance of the poses found.
"""
from fractions import Fraction

from effects import *
from quat import Quat, same
from p10 import qcompare, qsym
from p19 import within

PO = "pose_optimization::"
PB = "utils::PoseBase::"


def run(ctx):
    for f in (coefficients, partition, sums, residuals, ransac, accepted, solved, variance, variations, subsets, answers):
        ctx.group(f)
    ctx.assume("Real arithmetic; Eigen's Levenberg-Marquardt is not analysed: only what it is given and what is done with its result.")


def short(t):
    return str(t.a[0]).split("::")[-1].split("<")[0] if t.op == "call" and t.a and isinstance(t.a[0], str) else ""


# ------------------------------------------------------------------ parameters of the optimisation
def stereo(a):
    """the unit quaternion that three coefficients stand for"""
    s = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
    d = s + const(1)
    return [const(2) * x / d for x in a] + [(const(1) - s) / d]


def coefficients(ctx):
    pos, ori = getter(ctx, PB + "get_position"), getter(ctx, PB + "get_orientation_quaternion")
    p, a = vecn("p", 3), vecn("a", 3)
    c = M(6, 1, list(p.e) + list(a.e))
    want = stereo(a.e)
    # pose -> coefficients
    g = effects(ctx, PO + "get_optimization_coefficient_from_pose", loops=False)
    q = vecn("q", 4)          # x, y, z, w
    for n, v in ((pos, p), (ori, q)):
        g.b[mk("init", (("o", "param", g.fn.params[0]["n"]),) + tuple(n))] = v
    one = q.e[2] + const(1)
    spec = list(p.e) + [q.e[3] / one, q.e[0] / one, q.e[1] / one]
    for e in g.exits:
        away(ctx, g, e, "coefficients", "position, then (w, x, y)/(1 + z) of the orientation", e.val, spec,
             gt(one, const(Fraction(1, 1000))))
    # coefficients -> pose
    fs = pick(ctx, PO + "get_pose_from_optimization_coefficients")
    for fn in fs:
        g = Fx(ctx, fn)
        g.b[g.par(0)] = c
        for e in g.exits:
            Q = Quat(g.alg())
            compare(ctx, g, e, "position", "the position is the first three coefficients", lambda: Q.A.mat(project(e.val, *pos)), p)
            qcompare(ctx, g, e, Q, "orientation", "the orientation is that of the last three coefficients", project(e.val, *ori),
                     lambda: want)
            if len(fn.params) == 2:
                compare(ctx, g, e, "jacobian", "the Jacobian is the derivative of the position and the unit quaternion (w, x, y, z)",
                        lambda: Q.A.mat(g.out(e, 1)), lambda: jac(list(p.e) + want, c.e))
    # the quaternion itself is of unit length before any normalisation
    for fn in pick(ctx, PO + "get_quaternion_from_optimization_coefficients", lambda f: len(f.params) == 1):
        g = Fx(ctx, fn)
        g.b[g.par(0)] = a
        for e in g.exits:
            Q = Quat(g.alg())
            qcompare(ctx, g, e, Q, "quaternion", "the quaternion is that of the coefficients", e.val, lambda: want)


def away(ctx, g, e, key, what, val, want, side):
    """obligation: the vector has these components where the condition holds (a bound on the divisor away from its pole)"""
    ctx.item("%s: %s" % (g.sid, what))
    P = pred(g)
    try:
        cs = cases(g, e.S, [val])
        got = [(ch, g.alg().mat(v), pcs) for ch, (v,), pcs in cs]
    except Shape as x:
        return undecided(ctx, g, "%s (%s)" % (what, x))
    for ch, m, pcs in got:
        if m.r * m.c != len(want):
            return undecided(ctx, g, what)
        vs = [unbounded(x) for x in m.e]
        if all(equal(x, w) for x, w in zip(vs, want)):
            continue
        if any(unknown_atoms(x) for x in vs):
            undecided(ctx, g, what)
            continue
        decide(ctx, g, e.node, key, what, And(P.pc(e.S.pc), *[P.pc(pc) for pc in pcs]), Not(side), mode="implies")


def unbounded(r):
    """without the lower bound of a divisor"""
    sub = {}
    for a in r.atoms():
        if a.kind == "max" and isinstance(a.data, tuple) and len(a.data) == 2:
            cs = [d.const() for d in a.data]
            for c, d in zip(cs, reversed(a.data)):
                if c is not None and 0 <= c <= Fraction(1, 1000):
                    sub[a] = d
    return substitute(r, sub) if sub else r


# ------------------------------------------------------------------ loops over the features
class Each:
    """one loop over the features of a container, and the feature of an iteration"""

    def __init__(self, g, key, ptr):
        self.g, self.key, self.ptr = g, key, ptr
        self.S, self.F, self.node = g.ends[key]
        self.obj = (("deref", ptr),)

    def mine(self, t):
        """the feature itself, or its pointer"""
        return t is self.ptr or t.op == "init" and t.a[0] == self.obj


def each(g, base):
    """the loops over the container at the place base"""
    out = []
    alike = {(base,)} | {(w.loc,) for w in g.w if w.val is mk("init", base) and
                        not any(v.loc == w.loc and v.val is not w.val for v in g.w)}
    for key in g.ends:
        hit = None
        its = {h for h, first, nxt in carried(g, key).values() if first.op == "begin" and first.a in alike}
        for e in g.c + g.w:
            if key not in e.open:
                continue
            ts = ([e.objloc] if isinstance(e, C) else [e.loc])
            for loc in ts:
                for x in loc or ():
                    if isinstance(x, tuple) and x[0] == "deref" and isinstance(x[1], T):
                        t = x[1]
                        if t.op == "init" and len(t.a[0]) == len(base) + 1 and t.a[0][:-1] == base and \
                                isinstance(t.a[0][-1], tuple) and t.a[0][-1][:2] == ("i", "elem") and \
                                isinstance(t.a[0][-1][2], T) and t.a[0][-1][2].op == "iter" and t.a[0][-1][2].a[0] == key:
                            hit = t
                        elif t.op == "init" and len(t.a[0]) == 1 and t.a[0][0][0] == "deref" and t.a[0][0][1] in its:
                            hit = t
        if hit is None:
            for c in g.c:
                if key in c.open:
                    for t in c.args:
                        if t is not None and t.op == "init" and len(t.a[0]) == len(base) + 1 and t.a[0][:-1] == base and \
                                isinstance(t.a[0][-1], tuple) and t.a[0][-1][:2] == ("i", "elem") and \
                                isinstance(t.a[0][-1][2], T) and t.a[0][-1][2].op == "iter" and t.a[0][-1][2].a[0] == key:
                            hit = t
        if hit is not None:
            out.append(Each(g, key, hit))
    return out


def all_of(ctx, g, base, what, early=()):
    """the one loop over all features of a container"""
    es = each(g, base)
    ctx.item("%s: %s are all visited, once each" % (g.sid, what))
    if len(es) != 1:
        undecided(ctx, g, "loop over %s" % what)
        return None
    e = es[0]
    for n in within(e.node, ("return", "break", "goto")):
        if n.get("k") not in early:
            ctx.violation("%s:stop" % g.sid, where(g.fn, n), "the loop over %s may stop before the last one" % what)
    return e


def added(ctx, g, e, key, what, loc, term, parts, P, start=const(0), side=True):
    """obligation: the value carried by the loop e starts at start and each iteration adds, under each condition, the term"""
    c = carried(g, e.key).get(loc)
    ctx.item("%s: %s" % (g.sid, what))
    if c is None:
        return undecided(ctx, g, what)
    h, first, nxt = c
    try:
        if not equal(alg(g).sc(first), start):
            ctx.violation("%s:%s:start" % (g.sid, key), where(g.fn, e.node), "%s: does not start at %r" % (what, start))
    except Shape:
        undecided(ctx, g, what + ": start")
    g.b[h] = sym("sum")
    P.A = alg(g)
    P.memo.clear()
    return pieces(ctx, g, e.S, e.node, key, what, e.S.read(loc), [(c, sym("sum") + t) for c, t in parts], P=P, side=side)


def bound_calls(g, e, names):
    """binds what the feature of the iteration answers to symbols: {name: symbol}"""
    out = {}
    for t in closure(g.E, [c.S.read(l) for c in g.c for l in ()] + [x for w in g.w if w.val is not None for x in (w.val,)]):
        n = short(t)
        if n in names and len(t.a) >= 2 and isinstance(t.a[1], T) and e.mine(t.a[1]):
            g.b[t] = sym(n)
            out[n] = sym(n)
    return out


ASK = ("is_inlier", "get_score", "get_distance", "get_alpha_reduction", "get_feature_part_count", "is_valid",
       "compute_world_to_camera_transform", "compute_random_variation", "log_error", "log_warning", "log")


def transform_of(t, q, p):
    """t is the world to camera transformation of the pose with this orientation and position"""
    return t.op == "call" and short(t) == "compute_world_to_camera_transform" and [a for a in t.a[1:] if isinstance(a, T)] == [q, p]


def partition(ctx):
    pos, ori = getter(ctx, PB + "get_position"), getter(ctx, PB + "get_orientation_quaternion")
    g = effects(ctx, PO + "get_features_inliers_outliers", deny=ASK)
    pose = (root(g, 1),)
    e = all_of(ctx, g, (root(g, 0),), "the features")
    if e is None:
        return
    bound_calls(g, e, ("get_score",))
    q, p = mk("init", pose + tuple(ori)), mk("init", pose + tuple(pos))
    bad = []

    def hook(t):
        if short(t) == "is_inlier":
            if len(t.a) > 2 and e.mine(t.a[1]) and transform_of(t.a[2], q, p):
                return opaque("inlier")
            bad.append(t)
        return None
    P = pred(g, hook=hook)
    inl = opaque("inlier")
    ins = ("insert", "push_back", "emplace_back", "emplace", "push_front", "emplace_front")
    for field_, cond, what in (("_inliers", inl, "inliers"), ("_outliers", Not(inl), "outliers")):
        base = (root(g, 2), field_)
        cs = [c for c in g.c if c.name in ins and c.objloc == base and e.key in c.open]
        ctx.item("%s: the feature itself is added to the %s" % (g.sid, what))
        if not cs:
            if any(c.objloc == base and e.key in c.open for c in g.c) or any(w.loc[:2] == base and e.key in w.open for w in g.w):
                undecided(ctx, g, what)
            else:
                ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "no feature is added to the %s" % what)
            continue
        for c in cs:
            if c.args[-1] is not None and not e.mine(c.args[-1]):
                ctx.violation("%s:%s:item" % (g.sid, what), where(g.fn, c.node), "another feature is added to the %s" % what)
        when_any(ctx, g, cs, what, "a feature is among the %s exactly when it %s for the transformation of the pose" % (
            what, "is one" if cond is inl else "is not an inlier"), cond, P=P)
        if len(cs) > 1:
            for i in range(len(cs)):
                for j in range(i):
                    decide(ctx, g, cs[i].node, what + ":twice", "a feature is added once to the %s" % what,
                           And(P.pc(live(g, cs[i])), P.pc(live(g, cs[j]))), False, mode="implies")
        h = carried(g, e.key).get(base)
        ctx.item("%s: the %s start empty" % (g.sid, what))
        if h is None:
            undecided(ctx, g, what)
        elif not (empty(h[1]) or h[1].op == "mod" and h[1].a[0] == "clear"):
            if h[1].op == "init":
                ctx.violation("%s:%s:empty" % (g.sid, what), where(g.fn, e.node), "the %s of an earlier call are kept" % what)
            else:
                undecided(ctx, g, "the %s start empty" % what)
    if bad:
        ctx.violation("%s:transformation" % g.sid, where(g.fn, e.node),
                      "whether a feature is an inlier is not asked for the transformation of the pose given")
    for x in g.exits:
        hs = [(l, h) for l, (h, a, b) in carried(g, e.key).items() if x.val is h]
        if not hs:
            undecided(ctx, g, "score")
            continue
        added(ctx, g, e, "score", "the score is the sum of the scores of the inliers", hs[0][0], None,
              [(inl, sym("get_score")), (Not(inl), const(0))], P)
    ctx.count("loops")


def sums(ctx):
    g = effects(ctx, PO + "get_feature_set_optimization_score", deny=ASK)
    e = all_of(ctx, g, (root(g, 0),), "the features")
    if e is None:
        return
    bound_calls(g, e, ("get_score",))
    for x in g.exits:
        hs = [l for l, (h, a, b) in carried(g, e.key).items() if x.val is h]
        if not hs:
            undecided(ctx, g, "score of a set")
            continue
        added(ctx, g, e, "score", "the score of a set is the sum of the scores of its features", hs[0], None,
              [(True, sym("get_score"))], pred(g))


def residuals(ctx):
    g = effects(ctx, PO + "Global_Pose_Estimator::operator()", deny=ASK)
    e = all_of(ctx, g, (THIS, "_features"), "the features")
    if e is None:
        return
    bound_calls(g, e, ("get_alpha_reduction", "get_feature_part_count"))
    seg = []
    out = (root(g, 1),)
    for w in g.w:
        if e.key in w.open and w.loc[:1] == out and len(w.loc) == 2 and isinstance(w.loc[1], tuple):
            seg.append(w)
    ctx.item("%s: the distance of each feature is written" % g.sid)
    if len(seg) != 1 or seg[0].loc[1][:2] != ("i", "segment"):
        return undecided(ctx, g, "residuals of a feature")
    w = seg[0]
    ix = [x if isinstance(x, T) else mk("c", x) for x in w.loc[1][2:]]
    ds = [t for t in closure(g.E, [w.val]) if short(t) == "get_distance"]
    ctx.item("%s: the residual is the distance of the feature under the pose being evaluated" % g.sid)
    ok = False
    if len(ds) == 1 and e.mine(ds[0].a[1]) and len(ds[0].a) > 2:
        m = ds[0].a[2]
        pos, ori = pose_of(ctx, g)
        if m.op == "call" and short(m) == "compute_world_to_camera_transform":
            a = [x for x in m.a[1:] if isinstance(x, T)]
            ok = judge_pose(ctx, g, w, a)
    if ok is False:
        if len(ds) == 1 and not e.mine(ds[0].a[1]):
            ctx.violation("%s:feature" % g.sid, where(g.fn, w.node), "the residual is the distance of another feature")
        else:
            undecided(ctx, g, "residual")
        return
    g.b[ds[0]] = vecn("d", 2)
    n, al = sym("get_feature_part_count"), sym("get_alpha_reduction")
    try:
        v = alg(g).mat(w.val)
        ctx.item("%s: the residual is the distance times the reduction over the number of parts" % g.sid)
        want = M(2, 1, [x * al / n for x in vecn("d", 2).e])
        if not mequal(v, want):
            if unknown_atoms(v):
                undecided(ctx, g, "residual")
            else:
                ctx.violation("%s:residual" % g.sid, where(g.fn, w.node), "the residual is not the distance times the reduction over the number of parts")
    except Shape as x:
        undecided(ctx, g, "residual (%s)" % x)
    nan = opaque("not a number")

    def hook(t):
        if short(t) == "hasNaN":
            return nan if any(x is ds[0] for x in closure(g.E, [t])) else opaque("bad parameters")
        return None
    side = And(Not(opaque("bad parameters")), ("or", (nan, Not(nan))))
    # where it is written
    hs = [(l, h, a, b) for l, (h, a, b) in carried(g, e.key).items() if len(ix) == 2 and h is ix[0]]
    if not hs:
        if len(ix) == 2 and cval(ix[0]) is not None:
            ctx.violation("%s:place" % g.sid, where(g.fn, w.node), "the residuals of all features are written at one place")
        else:
            undecided(ctx, g, "place of the residuals")
    else:
        added(ctx, g, e, "place", "each feature has its own residuals, after those of the features before", hs[0][0], None,
              [(True, n)], pred(g, hook=hook), side=side)
        value_is(ctx, g, w.node, "length", "number of residuals of a feature", ix[1], n)
    when(ctx, g, w, "nan", "the residuals are written exactly when the distance is a number", Not(nan), P=pred(g, hook=hook),
         side=Not(opaque("bad parameters")))


def pose_of(ctx, g):
    return getter(ctx, PB + "get_position"), getter(ctx, PB + "get_orientation_quaternion")


def judge_pose(ctx, g, w, a):
    """the orientation and position given to the transformation are those of the parameters"""
    p, c = vecn("p", 3), vecn("a", 3)
    g.b[g.par(0)] = M(6, 1, list(p.e) + list(c.e))
    Q = Quat(g.alg())
    try:
        q, t = Q.ev(a[0]), Q.A.mat(a[1])
    except Exception:
        return None
    if any(unknown_atoms(x) for x in q) or unknown_atoms(t):
        return None
    if not same(q, stereo(c.e)) or not mequal(t, p):
        ctx.violation("%s:pose" % g.sid, where(g.fn, w.node), "the features are not compared under the pose of the parameters")
    return True


# ------------------------------------------------------------------ consensus
STEP = ("get_random_subset", "compute_optimized_global_pose", "get_features_inliers_outliers", "get_feature_set_optimization_score",
        "compute_pose_with_ransac", "compute_pose_variance", "compute_random_variation_of_pose", "is_covariance_valid", "double_equal",
        "set_position_variance") + ASK


def param(g, i):
    return mk("init", (root(g, i),))


def out_of(g, c):
    """value written by the call c in its last argument given by reference"""
    outs = [t for w in g.w if w.node is c.node and w.val is not None for t in (w.val,) if t.op == "out" and c.name in str(t.a[0])]
    return outs[-1] if outs else None


def result(g, name, terms):
    """the calls of this name among the terms"""
    return [t for t in closure(g.E, terms) if short(t) == name]


def conditions(g):
    return [t for c in g.c for cube in (c.S.pc or ()) for t, _ in cube] + \
           [t for e in g.exits for cube in (e.S.pc or ()) for t, _ in cube]


def ransac(ctx):
    g = effects(ctx, PO + "Pose_Optimization::compute_pose_with_ransac", deny=STEP)
    cur, feats = param(g, 0), param(g, 1)
    opt = calls(g, "compute_optimized_global_pose")
    split = calls(g, "get_features_inliers_outliers")
    opt1, opt2 = [c for c in opt if c.open], [c for c in opt if not c.open]
    ctx.item("%s: one optimisation and one evaluation per iteration, one final optimisation" % g.sid)
    if len({id(c.node) for c in opt1}) != 1 or len({id(c.node) for c in opt2}) != 1 or len({id(c.node) for c in split}) != 1 or \
            not split[0].open:
        return undecided(ctx, g, "steps of an iteration")
    c1, c2, c3 = opt1[-1], opt2[-1], split[-1]
    key = max(c1.open, key=lambda k: len(g.h.around.get(k, ())))
    S, F, node = g.ends[key]
    # the candidate
    fixed(ctx, g, c1, 0, cur, "start", "the candidate is optimised from the current pose")
    sub = c1.args[1]
    ctx.item("%s: the candidate is optimised on a random subset of the features" % g.sid)
    if short(sub) == "get_random_subset":
        if sub.a[1] is not feats:
            ctx.violation("%s:subset" % g.sid, where(g.fn, c1.node), "the subset is not drawn from the features")
    elif sub is feats or sub.op == "init":
        ctx.violation("%s:subset" % g.sid, where(g.fn, c1.node), "the candidate is not optimised on a random subset of the features")
    else:
        undecided(ctx, g, "subset")
    cand, sets = out_of(g, c1), out_of(g, c3)
    if cand is None or sets is None:
        return undecided(ctx, g, "candidate")
    if c3.args[0] is c1.args[1] and c3.args[0] is not feats:
        ctx.violation("%s:evaluated" % g.sid, where(g.fn, c3.node), "the candidate is evaluated on its own subset only")
    fixed(ctx, g, c3, 0, feats, "evaluated", "the candidate is evaluated on all features")
    fixed(ctx, g, c3, 1, cand, "evaluated", "the pose evaluated is the candidate")
    # what is kept
    car = carried(g, key)
    locs = {}
    pose_head, in_head = c2.args[0], c2.args[1]
    for l, (h, a, b) in car.items():
        if h is pose_head:
            locs["pose"] = l
        if h is in_head:
            locs["inliers"] = l
    ctx.item("%s: the final optimisation starts from the best pose, on the inliers kept" % g.sid)
    for k, i, t in (("pose", 0, pose_head), ("inliers", 1, in_head)):
        if k not in locs:
            if t is cur or t is feats or t.op == "init":
                ctx.violation("%s:final:%s" % (g.sid, k), where(g.fn, c2.node),
                              "the final optimisation does not use the %s found by the iterations" % k)
            else:
                undecided(ctx, g, "final " + k)
    if len(locs) < 2:
        return
    if locs["inliers"][-1] != "_inliers":
        ctx.violation("%s:final:inliers" % g.sid, where(g.fn, c2.node), "the final optimisation is not made on the inliers")
        return
    outl = locs["inliers"][:-1] + ("_outliers",)
    if outl not in car:
        if not any(w.loc[:len(outl)] == outl or w.loc == outl[:-1] for w in g.w if key in w.open):
            ctx.violation("%s:outliers" % g.sid, where(g.fn, node), "the outliers of the pose kept are not kept with it")
        return undecided(ctx, g, "outliers kept")
    score = result(g, "get_features_inliers_outliers", [S.read(l) for l in car] + conditions(g))
    if len(score) != 1:
        return undecided(ctx, g, "score of the candidate")
    best = [l for l, (h, a, b) in car.items() if score[0] in closure(g.E, [S.read(l)]) and cval(a) is not None]
    ctx.item("%s: the score of the pose kept is remembered" % g.sid)
    if len(best) != 1:
        if not best and not any(short(t) == "get_feature_set_optimization_score" and t.a[1] is in_head for c in g.c if key in c.open
                                for cube in (c.S.pc or ()) for u, _ in cube for t in subterms(u)) and \
                not any(score[0] in closure(g.E, [S.read(l)]) for l, (h, a, b) in car.items() if cval(a) is not None):
            ctx.violation("%s:score" % g.sid, where(g.fn, node), "the score of the pose kept is not remembered")
        return undecided(ctx, g, "best score")
    ctx.item("%s: the first pose kept is the current one, with no features and the minimum score" % g.sid)
    for l, ok, what in ((locs["pose"], car[locs["pose"]][1] is cur, "the pose kept first is not the current one"),
                        (best[0], cval(car[best[0]][1]) == 1, "the first score to beat is not 1"),
                        (locs["inliers"], empty(car[locs["inliers"]][1]), "inliers are kept before any iteration"),
                        (outl, empty(car[outl][1]), "outliers are kept before any iteration")):
        if not ok:
            if car[l][1].op in ("init", "c"):
                ctx.violation("%s:first" % g.sid, where(g.fn, node), what)
            else:
                undecided(ctx, g, what)
    new = {"pose": cand, "score": score[0], "inliers": project(sets, "_inliers"), "outliers": project(sets, "_outliers")}
    old = {"pose": car[locs["pose"]][0], "score": car[best[0]][0], "inliers": car[locs["inliers"]][0], "outliers": car[outl][0]}
    at_ = {"pose": locs["pose"], "score": best[0], "inliers": locs["inliers"], "outliers": outl}
    sc, mx, n0, n1 = sym("score"), sym("best"), sym("kept inliers"), sym("new inliers")
    g.b[score[0]], g.b[old["score"]] = sc, mx
    for t in closure(g.E, [S.read(l) for l in at_.values()] + conditions(g)):
        if short(t) == "size" and len(t.a) > 1:
            if t.a[1] is new["inliers"]:
                g.b[t] = n1
            elif t.a[1] is old["inliers"]:
                g.b[t] = n0
    natural(g, n0, n1)
    near = And(lt(sc - mx, const(Fraction(1, 10))), lt(mx - sc, const(Fraction(1, 10))))
    total = [t for t in closure(g.E, conditions(g)) if short(t) == "get_feature_set_optimization_score"]
    first, kept = sym("score of all"), sym("score of the inliers kept")
    for t in total:
        if t.a[1] is feats:
            g.b[t] = first
        elif t.a[1] is in_head:
            g.b[t] = kept
    A = alg(g)

    def hook(t):
        n = short(t)
        if n == "compute_optimized_global_pose" and t.a[1] is c1.args[0] and t.a[2] is c1.args[1]:
            return opaque("optimised")
        if n == "double_equal":
            try:
                a, b, e = [A.sc(x) for x in t.a[1:4]]
            except Exception:
                return None
            return And(lt(a - b, e), lt(b - a, e))
        if n == "load":
            return opaque("stopped")
        return None
    P = pred(g, hook=hook)
    better = And(opaque("optimised"), ge(sc, const(1)), Or(gt(sc, mx), And(near, gt(n1, n0))))
    what = "the pose, its score and its sets are replaced together, by a better candidate"
    names = list(at_)
    try:
        cs = cases(g, S, [S.read(at_[n]) for n in names])
    except Shape as x:
        return undecided(ctx, g, "%s (%s)" % (what, x))
    ctx.item("%s: %s" % (g.sid, what))
    side = Not(opaque("stopped"))
    # the number of iterations is a constant of the program
    const_ = [t for t in set(conditions(g)) if not any(u.op in ("init", "phi", "out", "iter", "site", "call") and short(u) not in
                                                       ("ceil", "log", "pow", "floor", "round") for u in subterms(t))]
    side = And(side, ge(mx, const(1)), ge(first, const(1)), *[Not(P.term(t)) for t in const_])
    for ch, vals, pcs in cs:
        kinds = []
        for n, v in zip(names, vals):
            kinds.append("new" if v is new[n] else "old" if v is old[n] else None)
        cond = And(P.pc(S.pc), *[P.pc(pc) for pc in pcs])
        if None in kinds:
            undecided(ctx, g, "%s: %s" % (what, ", ".join(n for n, k in zip(names, kinds) if k is None)))
        elif len(set(kinds)) == 2:
            decide(ctx, g, node, "mixed", "%s (%s)" % (what, ", ".join("%s %s" % p for p in zip(kinds, names))), cond, False, mode="implies",
                   integral=frozenset(g.ints), side=side)
        elif kinds[0] == "new":
            decide(ctx, g, node, "worse", "a candidate is kept only if it is better", cond, better, mode="implies",
                   integral=frozenset(g.ints), side=side)
        else:
            decide(ctx, g, node, "missed", "a better candidate is kept", cond, Not(better), mode="implies", integral=frozenset(g.ints),
                   side=side)
    # what is returned
    done = [t for t in closure(g.E, conditions(g) + [e.val for e in g.exits]) if short(t) == "compute_optimized_global_pose" and t.a[1] is pose_head
            and t.a[2] is in_head]

    def hook2(t):
        return opaque("final optimised") if t in done else None
    g.b[score[0]] = sc
    P = pred(g, hook=hook2)
    returned(ctx, g, P, And(ge(first, const(1)), ge(kept, const(1)), opaque("final optimised")), "answer",
             "a pose is returned exactly when the score of the inliers kept is sufficient and their optimisation succeeded",
             side=And(*[Not(P.term(t)) for t in const_]))
    ctx.item("%s: the final pose is written by the final optimisation only" % g.sid)
    fp = root(g, 2)
    for w in g.w:
        if w.loc[:1] == (fp,) and not (w.val is not None and w.val.op == "out" and w.node is c2.node):
            if w.open or w.val is not None and w.val.op in ("init", "phi", "out"):
                ctx.violation("%s:final:pose" % g.sid, where(g.fn, w.node), "the pose returned is not the one of the final optimisation")
            else:
                undecided(ctx, g, "final pose")
    for e in g.exits:
        for fld, h in (("_inliers", in_head), ("_outliers", old["outliers"])):
            v = e.S.read((root(g, 3), fld))
            ctx.item("%s: the %s returned are those kept (none without a pose)" % (g.sid, fld[1:]))
            truth = truths(g, e, P)
            if v is h:
                if truth is False:
                    ctx.violation("%s:sets" % g.sid, where(g.fn, e.node), "%s are returned without a pose" % fld[1:])
            elif empty(v) or v.op == "mod" and v.a[0] == "clear":
                if truth is True:
                    ctx.violation("%s:sets" % g.sid, where(g.fn, e.node), "the %s kept are not returned" % fld[1:])
            elif v in (in_head, old["outliers"]) or v.op == "init":
                ctx.violation("%s:sets" % g.sid, where(g.fn, e.node), "the %s returned are not those of the pose" % fld[1:])
            else:
                undecided(ctx, g, "%s returned" % fld[1:])


def truths(g, e, P):
    """True, False: the exit returns this constant; else None"""
    v = cval(e.val) if e.val is not None else None
    return bool(v) if v is not None else None


def returned(ctx, g, P, want, key, what, side=True):
    """obligation: the function returns true exactly under the condition"""
    got = []
    for e in g.exits:
        try:
            got.append(And(P.pc(e.S.pc), P.term(e.val)))
        except Exception as x:
            return undecided(ctx, g, "%s (%s)" % (what, x))
    decide(ctx, g, None, key, what, Or(*got), want, side=side)


def fixed(ctx, g, c, i, want, key, what):
    """obligation: this argument of the call is this value"""
    ctx.item("%s: %s" % (g.sid, what))
    v = c.args[i] if i < len(c.args) else None
    if v is want:
        return True
    if v is not None and (v.op in ("init", "out", "phi", "agg") and v.op != "call"):
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, c.node), "not so: %s" % what)
    else:
        undecided(ctx, g, what)


def accepted(ctx):
    g = effects(ctx, PO + "Pose_Optimization::compute_optimized_pose", deny=STEP)
    e = all_of(ctx, g, (root(g, 1),), "the features", early=("return", "break"))
    r, v = calls(g, "compute_pose_with_ransac"), calls(g, "compute_pose_variance")
    ctx.item("%s: the pose is searched, then its variance" % g.sid)
    if e is None or len({id(c.node) for c in r}) != 1 or len({id(c.node) for c in v}) != 1:
        return undecided(ctx, g, "steps")
    r, v = r[-1], v[-1]
    valid = opaque("valid")
    flags = {}

    def hook(t):
        if short(t) == "is_valid" and e.mine(t.a[1]):
            return valid
        if t in flags:
            return opaque("all valid")
        if short(t) == "compute_pose_with_ransac":
            return opaque("pose found")
        if short(t) == "compute_pose_variance":
            return opaque("variance found")
        return None
    P = pred(g, hook=hook)
    S, F, node = g.ends[e.key]
    for l, (h, a, b) in carried(g, e.key).items():
        if cval(a) in (True, 1) and h.op == "phi":
            flags[h] = l
    ctx.item("%s: one feature that is not valid is enough to refuse" % g.sid)
    for h, l in list(flags.items()):
        P.memo.clear()
        got = And(P.pc(S.pc), P.term(S.read(l)))
        decide(ctx, g, node, "valid", "the features stay valid exactly while each one is", got, And(opaque("all valid"), valid))
    if not flags:
        undecided(ctx, g, "validity of the features")
        return
    returned(ctx, g, P, And(opaque("all valid"), opaque("pose found"), opaque("variance found")), "answer",
             "a pose is accepted exactly when all features are valid, a pose is found and its variance too")
    for i, what in ((0, "the search starts from the pose given"), (1, "the search uses the features given")):
        fixed(ctx, g, r, i, param(g, i), "search", what)
    ctx.item("%s: the pose and the sets of the search are the ones returned" % g.sid)
    for i in (2, 3):
        if r.arglocs[i] is not None and r.arglocs[i] != (root(g, i),):
            undecided(ctx, g, "result of the search")
    outs = {w.loc: w.val for w in g.w if w.node is r.node and w.val is not None and w.val.op == "out"}
    pose, sets = outs.get((root(g, 2),)), outs.get((root(g, 3),))
    if pose is None or sets is None:
        return undecided(ctx, g, "result of the search")
    fixed(ctx, g, v, 0, pose, "variance:pose", "the variance is that of the pose found")
    ctx.item("%s: the variance is computed on the inliers" % g.sid)
    a = v.args[1]
    if a is not project(sets, "_inliers"):
        if a.op in ("fld", "init"):
            ctx.violation("%s:variance:features" % g.sid, where(g.fn, v.node), "the variance is not computed on the inliers of the pose found")
        else:
            undecided(ctx, g, "features of the variance")
    cov = out_of(g, v)
    st = [c for c in calls(g, "set_position_variance") if c.objloc == (root(g, 2),)]
    ctx.item("%s: the variance is stored in the pose" % g.sid)
    if cov is None or not st:
        if not st and not any(w.loc[:1] == (root(g, 2),) and w.node is not r.node for w in g.w):
            ctx.violation("%s:variance:stored" % g.sid, where(g.fn, v.node), "the variance is not stored in the pose")
        else:
            undecided(ctx, g, "variance stored")
        return
    for c in st:
        fixed(ctx, g, c, 0, cov, "variance:stored", "the variance stored is the one computed")
    when_any(ctx, g, st, "variance:stored", "the variance is stored when the pose is accepted",
             And(opaque("all valid"), opaque("pose found"), opaque("variance found")), P=P)


# ------------------------------------------------------------------ one optimisation
def solved(ctx):
    g = effects(ctx, PO + "Pose_Optimization::compute_optimized_global_pose",
                deny=ASK + ("get_optimization_coefficient_from_pose", "get_pose_from_optimization_coefficients", "minimize",
                            "get_human_readable_end_message"))
    pos, ori = getter(ctx, PB + "get_position"), getter(ctx, PB + "get_orientation_quaternion")
    feats = (root(g, 1),)
    mins = calls(g, "minimize")
    ctx.item("%s: the minimisation starts from the coefficients of the pose given" % g.sid)
    if len({id(c.node) for c in mins}) != 1:
        return undecided(ctx, g, "minimisation")
    c = mins[-1]
    start = c.args[0]
    if not (short(start) == "get_optimization_coefficient_from_pose" and start.a[1] is param(g, 0)):
        if short(start) == "get_optimization_coefficient_from_pose" or start.op in ("dflt", "init"):
            ctx.violation("%s:start" % g.sid, where(g.fn, c.node), "the minimisation does not start from the pose given")
        else:
            undecided(ctx, g, "start")
    ctx.item("%s: the features given are minimised" % g.sid)
    fs = [w for w in g.w if w.loc[-1] == "_features"]
    if not fs or any(w.val is None for w in fs):
        undecided(ctx, g, "features minimised")
    elif any(w.val is not param(g, 1) for w in fs):
        undecided(ctx, g, "features minimised")
    # the sums
    n, sc = sym("parts"), sym("score")
    for e in each(g, feats):
        bound_calls(g, e, ("get_score", "get_feature_part_count"))
        for l, (h, a, b) in carried(g, e.key).items():
            got = None
            if cval(a) != 0 or not numeric(h, g):
                continue
            g.b[h] = sym("sum")
            try:
                got = alg(g).sc(e.S.read(l))
            except Shape:
                pass
            del g.b[h]
            if got is None:
                continue
            for want, s in ((sym("get_feature_part_count"), n), (sym("get_score"), sc)):
                if equal(got, sym("sum") + want):
                    g.b[h] = s
        for x in within(e.node, ("break",)):
            ctx.violation("%s:stop" % g.sid, where(g.fn, x), "not all features are counted")
    ctx.item("%s: the number of residuals is the number of parts" % g.sid)
    for w in g.w:
        if w.loc[-1] in ("_outputCount", "_optimizationParts") and w.val is not None:
            value_is(ctx, g, w.node, "parts", "number of residuals", w.val, n)
        if w.loc[-1] == "_inputCount" and w.val is not None:
            value_is(ctx, g, w.node, "inputs", "number of coefficients", w.val, const(6))
    st = sym("status")
    for t in closure(g.E, conditions(g)):
        if short(t) == "minimize":
            g.b[t] = st
        elif short(t) in ("cols", "rows", "size") and len(t.a) > 1 and isinstance(t.a[1], T) and \
                short(t.a[1]) == "get_optimization_coefficient_from_pose":
            g.b[t] = const(1 if short(t) == "cols" else 6)
    natural(g, n)

    def hook(t):
        if short(t) in ("hasNaN", "allFinite"):
            made = result(g, "get_pose_from_optimization_coefficients", [t])
            from_start = t.a[1] is start
            nm = "pose" if made else "start" if from_start else None
            if nm is None:
                return None
            return opaque(nm + " not a number") if short(t) == "hasNaN" else opaque(nm + " finite")
        if short(t) == "empty" and t.a[1] is param(g, 1):
            return False
        return None
    P = pred(g, hook=hook)
    ok = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
    good = And(Not(opaque("pose not a number")), gt(st, const(0)), ge(sc, const(1)))
    decide(ctx, g, None, "accepted", "a pose is accepted only when the minimisation ended well and the pose is a number, for a sufficient score",
           ok, good, mode="implies", integral=frozenset(g.ints))
    decide(ctx, g, None, "refused", "a pose is accepted when the minimisation ended well and the pose is a number",
           ok, And(good, gt(n, const(6)), Not(opaque("start not a number")), opaque("start finite")), mode="covers",
           integral=frozenset(g.ints))
    base = (root(g, 2),)
    for e in g.exits:
        truth = truths(g, e, P)
        for path, what in ((pos, "position"), (ori, "orientation")):
            v = e.S.read(base + tuple(path))
            ctx.item("%s: the %s is the minimised one when a pose is accepted, and untouched else" % (g.sid, what))
            made = result(g, "get_pose_from_optimization_coefficients", [v])
            if v.op == "init" and v.a[0][:1] == base:
                if truth is True:
                    ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "the %s is not set" % what)
            elif made:
                if truth is False:
                    ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "the %s is changed without an accepted pose" % what)
                if all(t.a[1] is start for t in made):
                    ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "the %s is that before the minimisation" % what)
                elif not all(t.a[1].op == "out" and "minimize" in str(t.a[1].a[0]) for t in made):
                    undecided(ctx, g, what)
                core = v
                while short(core) in ("normalized",):
                    core = core.a[1]
                if core.op == "fld" and core.a[0] in made and (core.a[1],) != tuple(path) and core.a[1] != path[-1]:
                    ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "the %s is another part of the pose found" % what)
            elif v.op in ("init", "dflt") or {t.a[0][:1] for t in closure(g.E, [v]) if t.op == "init"} & {(root(g, 0),), base}:
                ctx.violation("%s:%s" % (g.sid, what), where(g.fn, e.node), "the %s is not the minimised one" % what)
            else:
                undecided(ctx, g, what)


def numeric(h, g):
    return h.op == "phi"


# ------------------------------------------------------------------ variance
def variance(ctx):
    g = effects(ctx, PO + "Pose_Optimization::compute_pose_variance", deny=STEP)
    vs = calls(g, "compute_random_variation_of_pose")
    ctx.item("%s: poses are found from variations of the features around the pose given" % g.sid)
    if not vs and not calls(g, "compute_random_variation"):
        ctx.violation("%s:variation" % g.sid, where(g.fn, None), "the features are not varied")
    if len({id(c.node) for c in vs}) != 1 or not vs[-1].open:
        return undecided(ctx, g, "variations")
    c = vs[-1]
    key = max(c.open, key=lambda k: len(g.h.around.get(k, ())))
    S, F, node = g.ends[key]
    for i, what in ((0, "the variation starts from the pose given"), (1, "the features given are varied")):
        fixed(ctx, g, c, i, param(g, i), "variation", what)
    new = out_of(g, c)
    app = [x for x in g.c if x.name in ("emplace_back", "push_back") and key in x.open and x.objloc is not None]
    if new is None or len({x.objloc for x in app}) != 1:
        return undecided(ctx, g, "poses found")
    found = opaque("found")

    def hook(t):
        return found if short(t) == "compute_random_variation_of_pose" else None
    when_any(ctx, g, app, "kept", "a pose is kept exactly when the variation succeeded", found, P=pred(g, hook=hook),
             side=Not(eq_param(g)))
    vec = app[-1].args[-1]
    ctx.item("%s: the pose kept is the one found" % g.sid)
    if new not in closure(g.E, [vec]):
        (ctx.violation("%s:kept:pose" % g.sid, where(g.fn, app[-1].node), "the pose kept is not the one found") if
         param(g, 0) in closure(g.E, [vec]) else undecided(ctx, g, "pose kept"))
    car = carried(g, key)
    poses = app[-1].objloc
    head = car.get(poses)
    # the sum of the poses
    x, m, n = vecn("x", 6), vecn("m", 6), sym("n")
    sums_ = [l for l, (h, a, b) in car.items() if vec in closure(g.E, [S.read(l)]) and l[:1] != poses[:1] and is_zero(g, a)]
    ctx.item("%s: the sum of the poses found" % g.sid)
    if len(sums_) == 1:
        h = car[sums_[0]][0]
        g.b[h], g.b[vec] = m, x
        P = pred(g, hook=hook)
        for ch, (v,), pcs in cases(g, S, [S.read(sums_[0])]):
            try:
                got = alg(g).mat(v)
            except Shape as ex:
                undecided(ctx, g, "sum (%s)" % ex)
                continue
            cond = And(P.pc(S.pc), *[P.pc(pc) for pc in pcs])
            if mequal(got, M(6, 1, [a + b for a, b in zip(m.e, x.e)])):
                decide(ctx, g, node, "sum", "only the poses kept are summed", cond, found, mode="implies", side=Not(eq_param(g)))
            elif mequal(got, m):
                decide(ctx, g, node, "sum", "all poses kept are summed", cond, Not(found), mode="implies", side=Not(eq_param(g)))
            elif unknown_atoms(got):
                undecided(ctx, g, "sum")
            else:
                ctx.violation("%s:sum" % g.sid, where(g.fn, node), "the sum of the poses is not their sum")
    else:
        undecided(ctx, g, "sum of the poses")
        return
    # the spread
    cov = (root(g, 2),)
    loops_ = [k for k in g.ends if k != key and cov in carried(g, k)]
    ctx.item("%s: the squares of the differences to the mean are summed" % g.sid)
    if len(loops_) != 1 or head is None:
        return undecided(ctx, g, "spread")
    k2 = loops_[0]
    S2, F2, node2 = g.ends[k2]
    h2, a2, b2 = carried(g, k2)[cov]
    if not is_zero(g, a2):
        if a2.op == "init":
            ctx.violation("%s:spread:start" % g.sid, where(g.fn, node2), "the covariance does not start at zero")
        else:
            undecided(ctx, g, "start of the covariance")
    C_ = matn("C", 6, 6)
    g.b[h2] = C_
    if vec in g.b:
        del g.b[vec]
    el = [t for t in subterms(S2.read(cov)) if t.op == "fld" and t.a[0] is head[0] and isinstance(t.a[1], tuple) and t.a[1][0] == "i"]
    for t in el:
        g.b[t] = x
    for t in closure(g.E, [S2.read(cov)] + conditions(g) + [e.S.read(cov) for e in g.exits]):
        if short(t) == "size" and len(t.a) > 1 and t.a[1] is head[0]:
            g.b[t] = n
    if len(set(el)) != 1:
        return undecided(ctx, g, "poses of the spread")
    if car[sums_[0]][0] not in subterms(S2.read(cov)):
        ctx.violation("%s:spread" % g.sid, where(g.fn, node2), "the spread is not around the mean of the poses found")
    if within(node2, ("break", "continue", "return")):
        undecided(ctx, g, "spread")
    d = [a - b / n for a, b in zip(x.e, m.e)]
    try:
        got = alg(g).mat(S2.read(cov))
        want = M(6, 6, [C_.e[i * 6 + j] + d[i] * d[j] for i in range(6) for j in range(6)])
        if not mequal(got, want):
            (undecided(ctx, g, "spread") if unknown_atoms(got) else ctx.violation(
                "%s:spread" % g.sid, where(g.fn, node2), "the spread is not the sum of the squares of the differences to the mean"))
    except Shape as ex:
        undecided(ctx, g, "spread (%s)" % ex)
    natural(g, n, sym("iterations"))
    for p in g.fn.params[3:]:
        g.b[mk("init", (("o", "param", p["n"]),))] = sym("iterations")
    P = pred(g, hook=lambda t: opaque("valid covariance") if short(t).startswith("is_covariance_valid") else
             eq(n, const(0)) if short(t) == "empty" and t.a[1] is head[0] else None)
    for e in g.exits:
        if truths(g, e, P) is False:
            continue
        ctx.item("%s: the covariance is that of the sample" % g.sid)
        try:
            got = alg(g).mat(e.S.read(cov))
            eps = const(Fraction(1, 1000))
            one = n - const(1)
            want = [C_.e[i * 6 + j] / one + (eps if i == j else const(0)) for i in range(6) for j in range(6)]
            if not mequal(got, M(6, 6, want)):
                (undecided(ctx, g, "covariance") if unknown_atoms(got) else ctx.violation(
                    "%s:covariance" % g.sid, where(g.fn, e.node), "the covariance is not that of the sample of poses"))
        except Shape as ex:
            undecided(ctx, g, "covariance (%s)" % ex)
    ok = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
    decide(ctx, g, None, "accepted", "a variance is accepted only from at least two poses, and when it is valid", ok,
           And(ge(n, const(2)), opaque("valid covariance")), mode="implies", integral=frozenset(g.ints))
    it = sym("iterations")
    decide(ctx, g, None, "failures", "a variance is refused when more than half of the variations failed", ok,
           ge(const(2) * n + const(1), it), mode="implies", integral=frozenset(g.ints), side=And(halves(g, it), gt(it, const(0))))
    decide(ctx, g, None, "refused", "a variance is accepted when enough poses were found and it is valid", ok,
           And(ge(n, const(2)), ge(const(2) * n, it), gt(it, const(0)), opaque("valid covariance")), mode="covers",
           integral=frozenset(g.ints), side=halves(g, it))


def halves(g, it):
    """what the integral half of the number of iterations is"""
    for t in closure(g.E, conditions(g)):
        if t.op == "idiv" and cval(t.a[1]) == 2:
            try:
                h = alg(g).sc(t)
                return And(le(const(2) * h, it), ge(const(2) * h + const(1), it))
            except Shape:
                pass
    return True


def eq_param(g):
    """no iterations at all"""
    P = pred(g)
    for t in set(conditions(g)):
        if t.op == "==" and any(x.op == "init" and x.a[0][:1] == (root(g, 3),) for x in t.a if isinstance(x, T)):
            return P.term(t)
    return False


def is_zero(g, t):
    try:
        v = g.alg().mat(t)
        return all(equal(x, const(0)) for x in v.e)
    except Exception:
        return t.op == "mod" and t.a[0] == "setZero"


def variations(ctx):
    g = effects(ctx, PO + "Pose_Optimization::compute_random_variation_of_pose", deny=STEP)
    e = all_of(ctx, g, (root(g, 1),), "the features")
    o = calls(g, "compute_optimized_global_pose")
    if e is None or len({id(c.node) for c in o}) != 1:
        return undecided(ctx, g, "variation of the features")
    c = o[-1]
    fixed(ctx, g, c, 0, param(g, 0), "start", "the optimisation starts from the pose given")
    app = [x for x in g.c if x.name in ("emplace_back", "push_back", "insert", "emplace") and e.key in x.open and x.objloc is not None]
    ctx.item("%s: each feature is varied once" % g.sid)
    if len({id(x.node) for x in app}) != 1:
        return undecided(ctx, g, "set of varied features")
    v = app[-1].args[-1]
    if short(v) != "compute_random_variation":
        (ctx.violation("%s:varied" % g.sid, where(g.fn, app[-1].node), "a feature is used as it is") if e.mine(v) else
         undecided(ctx, g, "varied feature"))
    elif not e.mine(v.a[1]):
        ctx.violation("%s:varied" % g.sid, where(g.fn, app[-1].node), "another feature is varied")
    P = pred(g)
    decide(ctx, g, app[0].node, "varied", "each feature is varied", Or(*[P.pc(live(g, x)) for x in app]), True,
           free=[lambda l: "size(" in show_leaf(l)])
    ctx.item("%s: the pose is optimised on the varied features" % g.sid)
    a = c.args[1]
    h = carried(g, e.key).get(app[-1].objloc)
    if a is param(g, 1):
        ctx.violation("%s:set" % g.sid, where(g.fn, c.node), "the pose is optimised on the features without variation")
    elif h is None or a is not h[0]:
        undecided(ctx, g, "set optimised")
    elif not empty(h[1]):
        undecided(ctx, g, "set optimised")
    for x in g.exits:
        ctx.item("%s: the answer is that of the optimisation" % g.sid)
        if short(x.val) != "compute_optimized_global_pose":
            (ctx.violation("%s:answer" % g.sid, where(g.fn, x.node), "the answer is not that of the optimisation") if
             cval(x.val) is True else undecided(ctx, g, "answer"))


# ------------------------------------------------------------------ random subsets
def subsets(ctx):
    g = effects(ctx, PO + "ransac::get_random_subset_with_score", deny=("get_score", "get_random_engine"))
    app = [c for c in g.c if c.name in ("insert", "push_back", "emplace_back", "emplace", "push_front", "emplace_front") and c.open]
    if len({id(c.node) for c in app}) != 1:
        return undecided(ctx, g, "subset")
    c = app[-1]
    key = max(c.open, key=lambda k: len(g.h.around.get(k, ())))
    S, F, node = g.ends.get(key, (None, None, None))
    if S is None:
        return undecided(ctx, g, "subset")
    el = c.args[-1]
    feats = (root(g, 0),)
    ctx.item("%s: the features of the subset are taken from those given, each at most once" % g.sid)
    src = el.a[0] if el.op == "fld" else None
    own = el.op == "init" and el.a[0][:-1] == feats
    it = el.a[1] if el.op == "fld" else el.a[0][-1] if el.op == "init" else None
    if not (isinstance(it, tuple) and it[:2] == ("i", "elem") and isinstance(it[2], T) and it[2].op == "iter" and it[2].a[0] == key):
        if isinstance(it, tuple) and it[0] == "i" and all(not isinstance(x, T) or cval(x) is not None for x in it[2:]):
            ctx.violation("%s:element" % g.sid, where(g.fn, c.node), "the same feature is added in every iteration")
        else:
            undecided(ctx, g, "element of the subset")
    elif src is not None and mk("begin", feats) not in subterms(src) and not own:
        undecided(ctx, g, "elements of the subset")
    car = carried(g, key)
    sc, tgt = sym("score so far"), sym("target")
    for t in closure(g.E, [w.val for w in g.w if w.val is not None]):
        if short(t) == "get_score" and el in subterms(t):
            g.b[t] = sym("get_score")
        elif short(t) == "get_score" and isinstance(t.a[1], T) and t.a[1].op == "init" and t.a[1].a[0][:1] == (("deref", el),):
            g.b[t] = sym("get_score")
    for t in closure(g.E, conditions(g)):
        if short(t) == "size" and len(t.a) > 1 and isinstance(t.a[1], T) and (
                t.a[1] is param(g, 0) or t.a[1].op == "new" and mk("begin", feats) in t.a[1].a):
            g.b[t] = sym("number of features")
    g.b[param(g, 1)] = tgt
    sums_ = []
    for l, (h, a, b) in car.items():
        if cval(a) == 0:
            g.b[h] = sc
            sums_.append((l, h))
    if len(sums_) != 1:
        return undecided(ctx, g, "score of the subset")
    l, h = sums_[0]
    pieces(ctx, g, S, node, "score", "the score so far is that of the features taken", S.read(l), [(True, sc + sym("get_score"))])
    P = pred(g)
    ctx.item("%s: each feature counted is in the subset" % g.sid)
    ws = [w for w in g.w if w.loc == l and key in w.open]
    when_any(ctx, g, app, "added", "each feature counted is added", Or(*[P.pc(live(g, w)) for w in ws]), P=P)
    for e in g.exits:
        inside = e.val is not None and e.val.op == "mod" and e.val.a[0] in ("insert", "push_back", "emplace_back", "emplace", "push_front",
                                                                            "emplace_front")
        if inside:
            decide(ctx, g, e.node, "target", "a subset is returned only when its score reaches the target", P.pc(e.S.pc),
                   ge(sc + sym("get_score"), tgt), mode="implies")
        elif e.val in [x[0] for x in car.values()]:
            decide(ctx, g, e.node, "target", "a subset is returned only when its score reaches the target", P.pc(e.S.pc),
                   ge(sc, tgt), mode="implies")
        else:
            undecided(ctx, g, "subset returned")
    ctx.item("%s: the subset starts empty" % g.sid)
    hb = car.get(c.objloc)
    if hb is None:
        undecided(ctx, g, "start of the subset")
    elif not empty(hb[1]):
        (ctx.violation("%s:empty" % g.sid, where(g.fn, c.node), "the subset does not start empty") if hb[1].op == "init" else
         undecided(ctx, g, "start of the subset"))
    # the caller asks for what a pose needs
    g = effects(ctx, PO + "get_random_subset", deny=("get_random_subset_with_score", "get_random_subset_with_score_with_duplicates",
                                                     "get_feature_set_optimization_score"), pred=lambda f: len(f.params) == 1)
    for e in g.exits:
        ctx.item("%s: a subset of the features, with the score a pose needs" % g.sid)
        v = e.val
        if not short(v).startswith("get_random_subset_with_score"):
            (ctx.violation("%s:subset" % g.sid, where(g.fn, e.node), "the features are not drawn at random") if v is param(g, 0) else
             undecided(ctx, g, "subset"))
            continue
        if v.a[1] is not param(g, 0):
            undecided(ctx, g, "subset")
        value_is(ctx, g, e.node, "target", "score of a subset", v.a[2], const(1))


# ------------------------------------------------------------------ what a feature answers
MM = "map_management::"
FORMS = [
    # class, points, score, (distance, expected arguments), (error of an inlier, maxima)
    ("PointOptimizationFeature", 2, Fraction(1, 5), "get_signed_distance_2D_px", ("get_distance_px", [3])),
    ("Point2dOptimizationFeature", 2, Fraction(1, 5), "compute_signed_screen_distance", ("compute_signed_screen_distance", [3, 3])),
    ("PlaneOptimizationFeature", 3, Fraction(1, 3), "get_reduced_signed_distance", ("get_signed_distance", [0.2, 0.2, 0.2, 50])),
]
DIST = ("get_distance_px", "compute_signed_screen_distance", "get_signed_distance", "compute_plane_world_to_camera_matrix",
        "get_normal_doubles", "get_normal_double", "get_reduced_signed_distance", "get_signed_distance_2D_px")


def rows(t):
    import re
    m = re.search(r"Matrix<double, *(\d+), *1\b", t or "")
    if m:
        return int(m.group(1))
    m = re.search(r"\bvector(\d)\b", t or "")
    return int(m.group(1)) if m else None


def answers(ctx):
    for cls, parts, score, dist, (err, lim) in FORMS:
        mat = "_mapPlane" if "Plane" in cls else "_mapPoint"
        det = "_matchedPlane" if "Plane" in cls else "_matchedPoint"
        dev = mat + "StandardDev"
        g = effects(ctx, MM + cls + "::get_feature_part_count")
        for e in g.exits:
            value_is(ctx, g, e.node, "parts", "number of parts of a %s" % cls, e.val, const(parts))
        g = effects(ctx, MM + cls + "::get_score")
        for e in g.exits:
            ctx.item("%s: the score is one over the minimum number of such features" % g.sid)
            v = cval(e.val)
            if v is None:
                undecided(ctx, g, "score")
            elif abs(float(v) - float(score)) > 1e-9:
                ctx.violation("%s:score" % g.sid, where(g.fn, e.node), "the score is %s, not %s" % (v, score))
        # distance
        g = effects(ctx, MM + cls + "::get_distance", deny=DIST)
        for e in g.exits:
            cs = [t for t in closure(g.E, [e.val]) if short(t) == dist]
            ctx.item("%s: the distance is that of the map feature to its match" % g.sid)
            if len(cs) != 1:
                undecided(ctx, g, "distance")
                continue
            if e.val is not cs[0]:
                undecided(ctx, g, "distance")
            between(ctx, g, e, cs[0], mat, det)
            cc = [c for c in g.c if c.name == dist and c.callee is not None]
            n = rows(cc[-1].callee.ret) if cc and hasattr(cc[-1].callee, "ret") else None
            if n is not None:
                ctx.item("%s: as many distances as parts" % g.sid)
                if n != parts:
                    ctx.violation("%s:size" % g.sid, where(g.fn, e.node), "%d distances for %d parts" % (n, parts))
        # inlier
        g = effects(ctx, MM + cls + "::is_inlier", deny=DIST)
        cs = {t for e in g.exits for t in closure(g.E, [e.val] + [t for cube in (e.S.pc or ()) for t, _ in cube]) if short(t) == err}
        ctx.item("%s: an inlier is a feature whose error is at most the maximum" % g.sid)
        if len(cs) != 1:
            undecided(ctx, g, "inlier")
        else:
            c = cs.pop()
            between(ctx, g, g.exits[0], c, mat, det)
            x = sym("d") if len(lim) == 1 else vecn("d", len(lim))
            g.b[c] = x
            A = alg(g)
            P = pred(g, hook=lambda t: elementwise(A, t))
            xs = [x] if len(lim) == 1 else x.e
            ms = [const(Fraction(str(v))) for v in lim]
            want = And(*[And(le(a, b), ge(a, const(0) - b)) if len(lim) > 1 else le(a, b) for a, b in zip(xs, ms)])
            got = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
            decide(ctx, g, None, "inlier", "an inlier is a feature whose error is at most the maximum", rounded(got), want)
        # validity
        g = effects(ctx, MM + cls + "::is_valid", deny=DIST)
        P = pred(g, hook=lambda t: opaque("deviation ok") if short(t) == "all" and mk("init", (THIS, dev)) in subterms(t) and
                 nonnegative(t, mk("init", (THIS, dev))) else opaque("nan " + nanof(t)) if nanof(t) else None)
        got = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
        ctx.item("%s: what is not a number is not valid" % g.sid)
        nans = {l: str(l[1])[4:].strip("'") for l in leaves(got) if l[0] == "p" and isinstance(l[1], str) and l[1].startswith("nan ")}
        other = [l for l in leaves(got) if l not in nans and not (l[0] == "p" and l[1] == "deviation ok")]
        for m in (det, mat, dev):
            if not any(v.split(".")[0] == m for v in nans.values()) and not any(("this." + m) in show_leaf(l).replace(m + "Stan", "")
                                                                                for l in other):
                ctx.violation("%s:nan:%s" % (g.sid, m), where(g.fn, g.exits[0].node if g.exits else None), "%s is not checked" % m)
        if not any(l == ("p", "deviation ok") for l in leaves(got)):
            undecided(ctx, g, "deviation")
        decide(ctx, g, None, "valid", "a feature that is not a number, or with a negative deviation, is not valid", got,
               And(*([Not(l) for l in nans] + [l for l in leaves(got) if l == ("p", "deviation ok")])), mode="implies")
        # variation
        g = effects(ctx, MM + cls + "::compute_random_variation", deny=DIST)
        ms = [c for c in g.c if c.name in ("make_shared", "make_unique")]
        ctx.item("%s: a variation keeps the match, the deviation and the ids" % g.sid)
        if len({id(c.node) for c in ms}) != 1:
            undecided(ctx, g, "variation")
            continue
        c = ms[-1]
        if len(c.args) != 5:
            undecided(ctx, g, "variation")
            continue
        for i, f in ((0, det), (2, dev), (3, "_idInMap"), (4, "_detectedFeatureId")):
            v = c.args[i]
            if v is mk("init", (THIS, f)):
                continue
            if v.op == "init" or cval(v) is not None:
                ctx.violation("%s:%s" % (g.sid, f), where(g.fn, c.node), "the variation does not keep %s" % f)
            else:
                undecided(ctx, g, "variation: %s" % f)
        varied(ctx, g, c, cls, mat, dev)


def varied(ctx, g, c, cls, mat, dev):
    """the map feature is moved by normal variables times the deviation"""
    v = c.args[1]
    ctx.item("%s: the map feature is moved by a normal variable times its deviation" % g.sid)
    if v is mk("init", (THIS, mat)):
        ctx.violation("%s:still" % g.sid, where(g.fn, c.node), "the map feature is not varied")
        return
    n = {t for t in closure(g.E, [v]) if short(t).startswith("get_normal_double")}
    if not n:
        (ctx.violation("%s:still" % g.sid, where(g.fn, c.node), "the map feature is not varied") if
         not any(t.op == "call" and "andom" in str(t.a[0]) for t in closure(g.E, [v])) else undecided(ctx, g, "variation"))
        return
    if "2d" in cls:
        return
    k = 3
    for t in n:
        g.b[t] = vecn("r", 3) if short(t) == "get_normal_doubles" else sym("r4")
    g.b[mk("init", (THIS, dev))] = vecn("s", 4 if "Plane" in cls else 3)
    A = alg(g)
    try:
        if "Plane" in cls:
            nrm = mk("init", (THIS, mat, "_normal"))
            g.b[nrm] = vecn("p", 3)
            g.b[mk("init", (THIS, mat, "_d"))] = sym("d")
            A = alg(g)
            d = A.sc(project(v, "_d"))
            if not equal(d, sym("d") + sym("r4") * vecn("s", 4).e[3]):
                (undecided(ctx, g, "varied distance") if unknown_atoms(d) else ctx.violation(
                    "%s:d" % g.sid, where(g.fn, c.node), "the distance of the plane is not moved by a normal variable times its deviation"))
            w = project(v, "_normal")
            if w.op == "mod" and w.a[0] == "normalize":
                w = w.a[1]
            elif short(w) == "normalized":
                w = w.a[1]
            else:
                ctx.violation("%s:unit" % g.sid, where(g.fn, c.node), "the varied normal is not normalised") if \
                    not any("ormaliz" in str(t.a[0]) for t in closure(g.E, [w]) if t.op in ("call", "mod")) else undecided(ctx, g, "unit")
            got, want = A.mat(w), M(3, 1, [a + b * s for a, b, s in zip(vecn("p", 3).e, vecn("r", 3).e, vecn("s", 4).e)])
        else:
            g.b[mk("init", (THIS, mat))] = vecn("p", 3)
            A = alg(g)
            got, want = A.mat(v), M(3, 1, [a + b * s for a, b, s in zip(vecn("p", 3).e, vecn("r", 3).e, vecn("s", 3).e)])
        if not mequal(got, want):
            (undecided(ctx, g, "variation") if unknown_atoms(got) else ctx.violation(
                "%s:varied" % g.sid, where(g.fn, c.node), "the map feature is not moved by a normal variable times its deviation"))
    except Shape as x:
        undecided(ctx, g, "variation (%s)" % x)


def between(ctx, g, e, c, mat, det):
    """the call compares the map feature and its match under the transformation given"""
    ins = [t for t in subterms(c) if t.op == "init"]
    m, d = mk("init", (THIS, mat)), mk("init", (THIS, det))
    tr = mk("init", (root(g, 0),))
    if c.a[1] is not m or c.a[2] is not d:
        if {x.a[0][:2] for x in ins} <= {(THIS, mat), (THIS, det), (root(g, 0),), (THIS, mat + "StandardDev")}:
            undecided(ctx, g, "features compared")
        else:
            undecided(ctx, g, "features compared")
    if tr not in ins:
        ctx.violation("%s:transformation" % g.sid, where(g.fn, e.node), "the transformation given is not used")


def nanof(t):
    """the member whose not-a-number test this is"""
    if short(t) in ("hasNaN", "isnan", "allFinite") and isinstance(t.a[1], T) and t.a[1].op == "init" and t.a[1].a[0][0] == THIS and \
            len(t.a[1].a[0]) > 1 and short(t) != "allFinite":
        return ".".join(str(x) for x in t.a[1].a[0][1:])
    return None


def nonnegative(t, v):
    x = t.a[1]
    return isinstance(x, T) and (x.op == "<=" and cval(x.a[0]) == 0 or x.op == ">=" and cval(x.a[1]) == 0)


def elementwise(A, t):
    """all(a <= b), component by component"""
    if short(t) == "any" and isinstance(t.a[1], T) and t.a[1].op in ("<=", "<", ">=", ">"):
        flip = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[t.a[1].op]
        f = elementwise(A, mk("call", "all", mk(flip, *t.a[1].a)))
        return None if f is None else Not(f)
    if short(t) != "all" or not isinstance(t.a[1], T) or t.a[1].op not in ("<=", "<", ">=", ">"):
        return None
    f = {"<=": le, "<": lt, ">=": ge, ">": gt}[t.a[1].op]

    def comps(x):
        both = False
        while x.op == "call" and short(x) in ("abs", "cwiseAbs", "array", "matrix"):
            both = both or short(x) != "array" and short(x) != "matrix"
            x = x.a[1]
        if cval(x) is not None:
            return [const(Fraction(str(cval(x))))], both
        return A.mat(x).e, both
    try:
        (a, p), (b, q) = comps(t.a[1].a[0]), comps(t.a[1].a[1])
    except Shape:
        return None
    n = max(len(a), len(b))
    a, b = (a * n if len(a) == 1 else a), (b * n if len(b) == 1 else b)
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        for s in ((1, -1) if p else (1,)):
            for r in ((1, -1) if q else (1,)):
                out.append(f(const(s) * x, const(r) * y))
    # |x| <= y: both; y >= |x|: both; |x| >= y or y <= |x|: one of them
    low = t.a[1].op in ("<=", "<")
    if p and low or q and not low or not p and not q:
        return And(*out)
    return None


def rounded(f):
    """single precision constants as written"""
    if isinstance(f, tuple) and f and f[0] == "cmp":
        return tuple(near(x) for x in f)
    if isinstance(f, tuple) and f and f[0] in ("and", "or"):
        return (f[0], tuple(rounded(x) for x in f[1]))
    if isinstance(f, tuple) and f and f[0] == "not":
        return ("not", rounded(f[1]))
    return f


def near(x):
    if isinstance(x, Fraction) and x.denominator > 1000:
        return x.limit_denominator(1000)
    return x
