RULE = """
Every user written copy or move constructor and assignment of the repository's classes (found from the syntax tree, new ones
included; defaulted ones copy every member by the language) is evaluated by value numbering: at each normal exit every data
member, base classes included, has the value number of the same member of the source, on every path. The constructors that
promote, upgrade or carry a feature are treated alike: each state member against the member or argument it stands for.
"""
import formula
from effects import *
from p12 import fields

KINDS = ("copyctor", "copyasg", "movector", "moveasg")
LOCAL = "map_management::"


def run(ctx):
    ctx.group(copies)
    ctx.group(promoted)
    ctx.group(carried)
    ctx.group(upgraded)
    ctx.assume("Members of library types (Eigen, OpenCV, standard containers) copy as their own copy operations specify.")


def inits(t):
    return [u.a[0] for u in subterms(t) if u.op == "init"]


def follows(p, q):
    """the place p is q or inside it, or around it"""
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def keeps(v, want):
    """True, False or None: v is the value at the place want"""
    place = want.a[0]
    if v is want:
        return True
    if v.op == "mod" and str(v.a[0]) in ("normalize", "stableNormalize") and keeps(v.a[1], want):
        return True       # unit vectors are what they are
    if v.op == "call" and str(v.a[0]).split("::")[-1].split("<")[0] in ("clone", "normalized", "stableNormalized", "move",
                                                                          "forward", "eval") and \
            len([a for a in v.a[1:] if isinstance(a, T)]) == 1:
        return keeps([a for a in v.a[1:] if isinstance(a, T)][0], want)
    if not any(follows(p, place) for p in inits(v)):
        return False
    if v.op == "init":
        return False if not follows(v.a[0], place) else None
    return None


def leaves(v, want):
    if v.op == "agg":
        out = []
        for sub, e in v.a[1]:
            out += leaves(e, mk("init", want.a[0] + tuple(sub)))
        if out:
            return out
    return [(v, want)]


def judged(g, v, want):
    k = keeps(v, want)
    if k is not None:
        return k
    if v.op in ("and", "or", "not", "<", "<=", "=="):
        return False      # a condition that is not the value itself
    try:
        A = alg(g)
        a, b = A.ev(v), A.ev(want)
        return True if mequal(a, b) else None if unknown_atoms(a) - unknown_atoms(b) else False
    except (Shape, ZeroDivision, AttributeError):
        return None


def kept(ctx, g, x, name, v, want, what):
    ctx.item("%s: %s" % (g.sid, what))
    try:
        cs = cases(g, x.S, [v])
    except Shape as e:
        return undecided(ctx, g, "%s (%s)" % (what, e))
    for ch, (e,), pcs in cs:
        js = [judged(g, *l) for l in leaves(e, want)]
        k = False if False in js else None if None in js else True
        if k is None:
            undecided(ctx, g, "%s: %s" % (what, show(e)[:60]))
        elif k is False:
            if not formula.feasible(g, x.S, ch):
                continue
            ctx.violation("%s:%s" % (g.sid, name), where(g.fn, x.node), "%s: it is %s" % (what, show(e)[:60]))
            return


def copies(ctx):
    n = 0
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.qn):
        r = f.raw
        if not any(r.get(k) for k in KINDS) or r.get("implicit") or r.get("defaulted") or not f.params:
            continue
        if not f.file.startswith(("src/", "third_party/")):
            continue
        ns = fields(ctx.prog, r.get("clst"))
        if not ns:
            continue
        n += 1
        g = effects(ctx, None, fn=f, distinct=True)
        for x in g.exits:
            for m in ns:
                kept(ctx, g, x, m, self_read(x, (m,)), g.par(0, m), "the copy holds the %s of the source" % m)
    ctx.need(n, "user written copy operations")


PROMOTED = {
    "LocalMapPoint": ("_coordinates", "_covariance", "_descriptor", "_id", "_matchIndexes", "_successivMatchedCount"),
    "LocalMapPoint2D": ("_coordinates", "_covariance", "_descriptor", "_isMoving", "_id", "_matchIndexes",
                        "_successivMatchedCount"),
    "LocalMapPlane": ("_parametrization", "_covariance", "_boundaryPolygon", "_id", "_matchIndexes",
                      "_successivMatchedCount"),
}


def promoted(ctx):
    for c, ns in PROMOTED.items():
        g = effects(ctx, LOCAL + c + "::" + c, pred=lambda f: len(f.params) == 1 and "Staged" in f.params[0]["t"])
        for x in g.exits:
            for m in ns:
                kept(ctx, g, x, m, self_read(x, (m,)), g.par(0, m), "the promoted feature keeps the %s of the staged one" % m)
        ctx.item("%s: promotion can end" % g.sid)
        if not g.exits:
            undecided(ctx, g, "no normal exit")


CARRIED = {
    "PointOptimizationFeature": ("_matchedPoint", "_mapPoint", "_mapPointStandardDev", "_idInMap", "_detectedFeatureId"),
    "Point2dOptimizationFeature": ("_matchedPoint", "_mapPoint", "_mapPointStandardDev", "_idInMap", "_detectedFeatureId"),
    "PlaneOptimizationFeature": ("_matchedPlane", "_mapPlane", "_mapPlaneStandardDev", "_idInMap", "_detectedFeatureId"),
    "DetectedFeatureContainer": ("keypointObject", "detectedLines", "detectedPlanes"),
    "UpgradedPoint2D": ("_coordinates", "_covariance", "_descriptor", "_matchIndexes"),
    "LocalMapPoint": ("_coordinates", "_covariance", "_descriptor", "_matchIndexes"),
}


def carried(ctx):
    for c, ns in CARRIED.items():
        g = effects(ctx, LOCAL + c + "::" + c, pred=lambda f: len(f.params) == len(ns))
        for x in g.exits:
            for i, m in enumerate(ns):
                kept(ctx, g, x, m, self_read(x, (m,)), g.par(i), "the %s is the argument given for it" % m)


def upgraded(ctx):
    g = effects(ctx, LOCAL + "MapPoint2D::compute_upgraded",
                deny=("to_world_coordinates", "compute_cartesian_covariance", "compute_linearity_score"))
    made = [c for c in calls(g, "make_shared")]
    ctx.item("%s: the upgraded feature is made" % g.sid)
    if len(made) != 1 or len([a for a in made[0].args if a is not None]) != 4:
        return undecided(ctx, g, "how the upgraded feature is made")
    pos, cov, desc, idx = [a for a in made[0].args if a is not None]
    node = made[0].node
    x = Obj(node, made[0].S)
    kept(ctx, g, x, "descriptor", desc, g.this("_descriptor"), "the upgraded feature keeps the descriptor")
    kept(ctx, g, x, "matches", idx, g.this("_matchIndexes"), "the upgraded feature keeps its matches")
    ctx.item("%s: the upgraded feature is at the point it was, with its covariance" % g.sid)
    ps = [u for u in subterms(pos) if u.op == "call" and short(u) == "to_world_coordinates"]
    if not ps or ps[0].a[1] is not g.this("_coordinates"):
        if not any(follows(p, g.this("_coordinates").a[0]) for p in inits(pos)):
            ctx.violation("%s:position" % g.sid, where(g.fn, node), "the upgraded feature is not at the point it was")
        else:
            undecided(ctx, g, "position of the upgraded feature")
    cs = [u for u in subterms(cov) if u.op == "call" and short(u) == "compute_cartesian_covariance"]
    if not cs:
        if not any(follows(p, g.this("_covariance").a[0]) for p in inits(cov)):
            ctx.violation("%s:covariance" % g.sid, where(g.fn, node), "the covariance of the upgraded feature is not its own")
        else:
            undecided(ctx, g, "covariance of the upgraded feature")
    elif cs[0].a[1] is not g.this("_covariance"):
        ctx.violation("%s:covariance" % g.sid, where(g.fn, node), "the covariance of the upgraded feature is not made of its own")
    elif not any(u.op == "out" and "to_world_coordinates" in str(u.a[0]) for u in subterms(cs[0].a[2])):
        ctx.violation("%s:jacobian" % g.sid, where(g.fn, node),
                      "the covariance is not propagated with the Jacobian of the conversion")
    elif cov is not cs[0]:
        undecided(ctx, g, "covariance of the upgraded feature")

    g = effects(ctx, LOCAL + "localPointMap::add_upgraded_to_local_map", deny=("get_type", "add_to_local_map"))
    add = calls(g, "add_to_local_map")
    ctx.item("%s: the upgraded feature is added" % g.sid)
    if len(add) != 1 or not add[0].args or add[0].args[-1] is None or add[0].args[-1].op != "agg":
        return undecided(ctx, g, "how the upgraded feature is added")
    vals = {sub: v for sub, v in add[0].args[-1].a[1]}
    x = Obj(add[0].node, add[0].S)
    for m in ("_coordinates", "_covariance", "_descriptor", "_matchIndexes"):
        v = vals.get((m,))
        if v is None:
            undecided(ctx, g, "the %s added" % m)
            continue
        want = [u for u in inits(v) if u[-1] == m and u[0][0] == "deref"]
        w = mk("init", want[0]) if want else mk("init", (("o", "upgraded"), m))
        kept(ctx, g, x, m, v, w, "the feature added has the %s of the upgraded one" % m)


class Obj:
    def __init__(self, node, S):
        self.node, self.S, self.val = node, S, None


def short(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]
