RULE = """
Tracking of a frame, from value numbers with exact path conditions. The pose returned and the one kept, the flags and the
counters at the end of a frame are decided case by case (first frame, pose found, map update that throws); each step on the map
is a call whose arguments have to be the values of this frame. The operations of the local map are unfolded over its maps: each
map gets each step once, with the same arguments, in the order of the stages.
"""
from effects import *
import p19

LM = "map_management::Local_Map::"
STEPS = ("detect_features", "find_feature_matches", "compute_optimized_pose", "Local_Map::update", "update_no_pose",
         "add_all_features_to_map", "Motion_Model::reset", "predict_next_pose", "is_covariance_valid",
         "compute_camera_to_world_transform", "compute_world_to_camera_transform", "log_error", "log_warning", "log",
         "Pose::Pose")


def run(ctx):
    for f in (frame, start, track, rectified, detected, updated, untracked, added, matched, tracked, candidates, searches, points):
        ctx.group(f)
    ctx.assume("What each step does (detection, matching, optimisation, maps) is the subject of other properties: here, what it is given and what is done with its result.")


def short(t):
    return str(t.a[0]).split("<")[0].split("::")[-1] if t.op == "call" else None


def param(g, i):
    return mk("init", (root(g, i),))


def mine(g, *path):
    return mk("init", (("o", "this"),) + path)


def once(ctx, g, name, what):
    cs = calls(g, name)
    if len({id(c.node) for c in cs}) != 1:
        undecided(ctx, g, what)
        return None
    return cs[-1]


KNOWN = ("init", "out", "phi", "dflt", "c", "zero")


def given(ctx, g, c, i, ok, key, what):
    """obligation: argument i of the call is what the test accepts; a value of this function that it does not accept is wrong"""
    ctx.item("%s: %s" % (g.sid, what))
    v = c.args[i] if i < len(c.args) else None
    if v is not None and ok(v):
        return True
    if v is None or not settled_value(g, v):
        return undecided(ctx, g, what)
    ctx.violation("%s:%s" % (g.sid, key), where(g.fn, c.node), "not so: %s" % what)


def settled_value(g, v):
    """a value whose origin is known: an input, or the result of one of the steps"""
    while v.op in ("fld", "phi") and v.a and isinstance(v.a[0], T):
        v = v.a[0]
    return v.op in KNOWN or short(v) in [s.split("::")[-1] for s in STEPS + MAPSTEPS]


MAPSTEPS = ("update_map", "add_features_to_staged_map", "get_upgraded_features", "add_upgraded_features", "update_with_no_tracking",
            "Feature_Map::get_tracked_features", "Feature_Map::get_matches", "Feature_Map::mark_outliers_as_unmatched",
            "Feature_Map::reset", "Feature_Map::destroy", "add_all_features_to_staged_map", "minimum_features_for_opti",
            "get_local_map_size", "get_staged_map_size", "compute_keypoints", "find_primitives", "detect_lines",
            "get_organized_cloud_array", "compute_new_pose", "rectify_depth", "cvtColor")


# ------------------------------------------------------------------ one frame
def frame(ctx):
    g = effects(ctx, "RGBD_SLAM::compute_new_pose", deny=STEPS, raises=("update", "add_all_features_to_map"))
    pose = mine(g, "_currentPose")
    d, f, o = [once(ctx, g, n, n) for n in ("detect_features", "find_feature_matches", "compute_optimized_pose")]
    if None in (d, f, o):
        return
    is_pose = lambda v: v is pose
    given(ctx, g, d, 0, is_pose, "detection:pose", "the features are detected with the current pose")
    for i in (1, 2, 3):
        given(ctx, g, d, i, lambda v: v is param(g, i - 1), "detection", "the features are detected on the images given")
    given(ctx, g, f, 0, is_pose, "matching:pose", "the features are matched with the current pose")
    given(ctx, g, f, 1, lambda v: short(v) == "detect_features", "matching", "the features matched are the ones detected in this frame")
    given(ctx, g, o, 0, is_pose, "optimisation:pose", "the optimisation starts from the current pose")
    given(ctx, g, o, 1, lambda v: short(v) == "find_feature_matches", "optimisation", "the optimisation uses the matches of this frame")
    outs = {}
    for w in g.w:
        if w.node is o.node and w.val is not None and w.val.op == "out" and "compute_optimized_pose" in str(w.val.a[0]):
            outs[w.val.a[1]] = w.val
    if 2 not in outs or 3 not in outs:
        return undecided(ctx, g, "result of the optimisation")
    opt, sets = outs[2], outs[3]
    n = sym("failures")
    g.b[opt], g.b[pose] = sym("optimised pose"), sym("current pose")
    g.b[mine(g, "_failedTrackingCount")] = n
    for t in closure(g.E, [e.val for e in g.exits if e.val is not None]):
        if t.op == "dflt" and "Pose" in str(t.a[0]):
            g.b[t] = sym("no pose")
    natural(g, n)
    first, found, lost, thrown, usable = [opaque(x) for x in ("first frame", "pose found", "lost before", "map update throws", "covariance usable")]

    def hook(t):
        if t is mine(g, "_isFirstTrackingCall"):
            return first
        if t is mine(g, "_isTrackingLost"):
            return lost
        if short(t) == "compute_optimized_pose":
            return found
        if short(t) == "raises" and t.a[1] == "update":
            return thrown
        if short(t) == "raises":
            return False       # asked only for a covariance that is accepted
        if short(t) == "is_covariance_valid" and len(t.a) > 1:
            a = t.a[1]
            if a is getvar or a.op == "init" and a.a[0] == pose.a[0] + ("_poseVariance",):
                return True    # the process ends for the others
            return usable
        return None
    getvar = project(pose, "_poseVariance")
    P = pred(g, hook=hook)
    valid = And(Not(first), found)
    good = And(valid, Not(thrown))
    bad = Or(And(valid, thrown), And(Not(valid), Not(first)))
    this = (("o", "this"),)
    for e in g.exits:
        if e.val is None:
            continue
        pieces(ctx, g, e.S, e.node, "returned", "the pose returned is the optimised one when there is one, else the current one", e.val,
               [(valid, sym("optimised pose")), (Not(valid), sym("current pose"))], P=P)
        pieces(ctx, g, e.S, e.node, "kept", "the pose kept is the one returned", e.S.read(this + ("_currentPose",)),
               [(valid, sym("optimised pose")), (Not(valid), sym("current pose"))], P=P)
        pieces(ctx, g, e.S, e.node, "failures", "the failures in a row are counted, from the second frame on", e.S.read(this + ("_failedTrackingCount",)),
               [(good, const(0)), (bad, n + const(1)), (And(Not(valid), first), n)], P=P)
        more = gt(n, const(2))
        decide(ctx, g, e.node, "lost", "tracking is lost exactly after more than 3 failures in a row",
               And(P.pc(e.S.pc), P.term(e.S.read(this + ("_isTrackingLost",)))),
               Or(And(bad, more), And(Not(valid), first, lost)), integral=frozenset(g.ints))
        decide(ctx, g, e.node, "first", "every frame after the first is not the first",
               And(P.pc(e.S.pc), P.term(e.S.read(this + ("_isFirstTrackingCall",)))), False)
        k = e.S.read(this + ("_computeKeypointCount",))
        ctx.item("%s: the count of frames since the keypoints were searched anew goes round" % g.sid)
        if k is mine(g, "_computeKeypointCount"):
            ctx.violation("%s:keypoints" % g.sid, where(g.fn, e.node), "the frames are not counted: the keypoints are never searched anew")
    u, nu, ad = [calls(g, x) for x in ("update", "update_no_pose", "add_all_features_to_map")]
    u = [c for c in u if c.objloc is not None and c.objloc[-1] == "_localMap"]
    for cs, want, key, what in ((u, valid, "update", "the map is updated exactly when a pose was found"),
                                (nu, Or(Not(valid), thrown), "untracked", "the map is updated without pose exactly when none was found or the update failed"),
                                (ad, And(Not(valid), lost, usable), "added", "all features are added exactly when no pose was found, tracking was lost and the covariance is valid")):
        ctx.item("%s: %s" % (g.sid, what))
        if not cs:
            undecided(ctx, g, what)
            continue
        when_any(ctx, g, cs, key, what, want, P=P)
        if any(c.open for c in cs):
            undecided(ctx, g, what + " (once)")
    for c in u:
        at_call(ctx, g, c, 0, "update:pose", "the map is updated with the optimised pose", sym("optimised pose"), P)
        given(ctx, g, c, 1, lambda v: short(v) == "detect_features", "update:features", "the map is updated with the features of this frame")
        g.b[project(sets, "_outliers")], g.b[project(sets, "_inliers")] = sym("outliers"), sym("inliers")
        for t in closure(g.E, [c.args[2]]):
            if t.op == "dflt":
                g.b[t] = sym("nothing")
        at_call(ctx, g, c, 2, "update:outliers", "the outliers given to the map are those of the optimisation", sym("outliers"), P)
    for c in ad:
        given(ctx, g, c, 2, lambda v: short(v) == "detect_features", "added:features", "the features added are those of this frame")
        given(ctx, g, c, 1, lambda v: short(v) == "compute_camera_to_world_transform" and of_pose(v, pose), "added:transform", "they are added with the transformation of the current pose")
        cov = c.args[0]
        ctx.item("%s: they are added with the variance of the position" % g.sid)
        if not from_pose(cov, pose):
            undecided(ctx, g, "variance of the features added")
    ctx.item("%s: the features that are added are not counted as missed in the same frame" % g.sid)
    last = [c for c in nu if ad and any(c.seq > a.seq for a in ad) and feasible_both(g, c, ad)]
    if last:
        ctx.violation("%s:order" % g.sid, where(g.fn, last[0].node), "features added to the map are updated as missed in the same frame")


def at_call(ctx, g, c, i, key, what, want, P):
    pieces(ctx, g, c.S, c.node, key, what, c.args[i], [(True, want)], P=P)


def feasible_both(g, c, others):
    return any(not (x & frozenset((t, not p) for t, p in y)) for a in others for x in (a.S.pc or ()) for y in (c.S.pc or ()))


def of_pose(v, pose):
    """transformation computed from the orientation and the position of this pose"""
    a = [x for x in v.a[1:] if isinstance(x, T)]
    return len(a) == 2 and is_part(a[0], pose, "_orientation") and is_part(a[1], pose, "_position")


def is_part(t, pose, name):
    return t is project(pose, name) or (pose.op == "init" and t.op == "init" and t.a[0] == pose.a[0] + (name,))


def from_pose(t, pose):
    p = pose.a[0] + ("_poseVariance",)
    return any(is_part(x, pose, "_poseVariance") or x.op == "init" and x.a[0][:len(p)] == p for x in subterms(t))


# ------------------------------------------------------------------ the start
def start(ctx):
    for fn in pick(ctx, "RGBD_SLAM::RGBD_SLAM"):
        if not fn.raw.get("body") and not fn.raw.get("b"):
            continue
        g = effects(ctx, None, fn=fn, deny=("Primitive_Detection", "Depth_Map_Transformation", "Local_Map", "Key_Point_Extraction",
                                            "Line_Detection", "Parameters::is_valid", "Parameters::load_defaut", "log", "log_error", "make_unique",
                                            "Motion_Model"))
        if not g.exits:
            continue
        this = (("o", "this"),)
        p0 = [i for i, p in enumerate(fn.params) if "Pose" in p.get("t", "")]
        for e in g.exits:
            for f, want, what in (("_isTrackingLost", True, "tracking starts as lost, so that the features of the first frame are taken"),
                                  ("_isFirstTrackingCall", True, "the first frame is the first")):
                ctx.item("%s: %s" % (g.sid, what))
                v = cval(e.S.read(this + (f,)))
                if v is None:
                    undecided(ctx, g, what)
                elif bool(v) is not want:
                    ctx.violation("%s:%s" % (g.sid, f), where(fn, None), "not so: %s" % what)
            for f, what in (("_failedTrackingCount", "no failure is counted at the start"),):
                value_is(ctx, g, e.node, f, what, e.S.read(this + (f,)), const(0))
            ctx.item("%s: the first pose is the one given" % g.sid)
            v = e.S.read(this + ("_currentPose",))
            if p0 and v is not param(g, p0[0]):
                if v.op in ("dflt", "init", "agg") and not any(x.op == "init" and x.a[0][:1] == (root(g, p0[0]),) for x in subterms(v)):
                    ctx.violation("%s:pose" % g.sid, where(fn, None), "the start pose is not the one given")
                else:
                    undecided(ctx, g, "start pose")


def track(ctx):
    g = effects(ctx, "RGBD_SLAM::track", deny=("get_organized_cloud_array", "compute_new_pose", "cvtColor"))
    c, a = once(ctx, g, "compute_new_pose", "frame"), once(ctx, g, "get_organized_cloud_array", "cloud")
    if c is None or a is None:
        return
    given(ctx, g, a, 0, lambda v: v is param(g, 1), "cloud", "the cloud is that of the depth image given")
    given(ctx, g, c, 1, lambda v: v is param(g, 1), "depth", "the depth image is the one given")
    given(ctx, g, c, 2, lambda v: v.op == "out" and "get_organized_cloud_array" in str(v.a[0]), "cloud", "the cloud used is the one made of this image")
    ctx.item("%s: the gray image is that of the colour image given" % g.sid)
    v = c.args[0]
    cv = calls(g, "cvtColor")
    src = [x for k in cv for x in subterms(k.args[0])]
    if not (v.op == "out" and cv and cv[-1].seq < c.seq and any(x is param(g, 0) for x in src)):
        (ctx.violation("%s:gray" % g.sid, where(g.fn, c.node), "the image is not that of this frame") if v.op in ("init", "dflt") else undecided(ctx, g, "gray image"))
    ctx.item("%s: the pose returned is that of this frame" % g.sid)
    for e in g.exits:
        if e.val is None or short(e.val) != "compute_new_pose":
            if e.val is not None and (e.val.op in ("dflt", "init") or any(x.op == "init" and "_currentPose" in x.a[0] for x in [e.val])):
                ctx.violation("%s:returned" % g.sid, where(g.fn, e.node), "the pose returned is not that of this frame")
            else:
                undecided(ctx, g, "pose returned")


def rectified(ctx):
    g = effects(ctx, "RGBD_SLAM::rectify_depth", deny=("Depth_Map_Transformation::rectify_depth", "log_error"))
    c = once(ctx, g, "rectify_depth", "rectification")
    if c is None:
        return
    given(ctx, g, c, 0, lambda v: v is param(g, 0), "image", "the image rectified is the one given")
    out = [w.val for w in g.w if w.node is c.node and w.val is not None and w.val.op == "out" and w.val.a[1] == 1]
    if not out:
        return undecided(ctx, g, "rectified image")
    g.b[out[-1]], g.b[param(g, 0)] = sym("rectified image"), sym("image given")
    P = pred(g, hook=lambda t: opaque("rectified") if short(t) == "rectify_depth" else None)
    for e in g.exits:
        pieces(ctx, g, e.S, e.node, "replaced", "the image is replaced by the rectified one exactly when the rectification succeeded",
               e.S.read((root(g, 0),)), [(opaque("rectified"), sym("rectified image")), (Not(opaque("rectified")), sym("image given"))], P=P)


# ------------------------------------------------------------------ detection
def detected(ctx):
    g = effects(ctx, "RGBD_SLAM::detect_features", deny=("compute_keypoints", "Local_Map::get_tracked_features", "find_primitives", "detect_lines",
                                                        "DetectedFeatureContainer::DetectedFeatureContainer"))
    k, p, t = [once(ctx, g, n, n) for n in ("compute_keypoints", "find_primitives", "get_tracked_features")]
    if k is None or p is None:
        return
    given(ctx, g, k, 0, lambda v: v is param(g, 1), "keypoints", "keypoints are detected on the gray image given")
    given(ctx, g, k, 1, lambda v: v is param(g, 2), "keypoints", "keypoints get the depth image given")
    if t is not None:
        given(ctx, g, t, 0, lambda v: v is param(g, 0), "tracked", "the features tracked are those seen from the pose given")
        ctx.item("%s: the points tracked are those of the map" % g.sid)
        if not any(short(x) == "get_tracked_features" for x in subterms(k.args[2])):
            undecided(ctx, g, "points tracked")
    n = sym("count")
    g.b[mine(g, "_computeKeypointCount")] = n
    natural(g, n)
    P = pred(g, hook=lambda t: opaque("lost") if t is mine(g, "_isTrackingLost") else None)
    ctx.item("%s: keypoints are searched anew when tracking is lost, and at the first frame of each round" % g.sid)
    try:
        got = P.term(k.args[3])
    except Shape:
        got = None
    if got is None:
        undecided(ctx, g, "search of keypoints")
    else:
        decide(ctx, g, k.node, "renewed", "keypoints are searched anew exactly when tracking is lost or a round starts", got,
               Or(opaque("lost"), eq(n, const(1))), integral=frozenset(g.ints))
    given(ctx, g, p, 0, lambda v: v is param(g, 3), "planes", "planes are searched in the cloud given")
    given(ctx, g, p, 1, lambda v: v is param(g, 2), "planes", "planes are searched in the depth image given")
    ctx.item("%s: the features returned are what the detections found, each in its place" % g.sid)
    made = [c for c in g.c if "DetectedFeatureContainer" in str(c.callee.get("qn", "")) and len(c.args) == 3]
    if not made:
        return undecided(ctx, g, "features returned")
    for i, ok, what in ((0, lambda v: short(v) == "compute_keypoints", "keypoints"),
                        (2, lambda v: v.op == "out" and "find_primitives" in str(v.a[0]) and v.a[1] == 2, "planes")):
        v = made[-1].args[i]
        rs = returns_of(g, v)
        if not rs:
            undecided(ctx, g, what + " returned")
        for r in rs:
            r = plain(g, r)
            if ok(r):
                continue
            if r.op in ("dflt", "init", "out") or short(r) in ("compute_keypoints",):
                ctx.violation("%s:%s" % (g.sid, what), where(g.fn, made[-1].node), "the %s returned are not the ones found" % what)
            else:
                undecided(ctx, g, what + " returned")


def plain(g, t):
    while t.op == "call" and short(t) in ("move", "forward") and len(t.a) == 2:
        t = t.a[1]
    return t


def returns_of(g, v):
    """values of the task whose result this is"""
    v = plain(g, v)
    while v.op == "call" and short(v) == "get" and len(v.a) > 1:
        v = v.a[1]
    if v.op == "init" and len(v.a[0]) == 1 and isinstance(v.a[0][0], tuple) and v.a[0][0][0] == "deref":
        v = v.a[0][0][1]
    if short(v) == "async":
        ls = [x for x in v.a[1:] if isinstance(x, T) and x.op == "lam"]
        return [e.val for l in ls for e in g.E.lamrets.get(l, ()) if e.val is not None]
    return [v] if v.op in ("out", "dflt") or short(v) in ("compute_keypoints",) else []


# ------------------------------------------------------------------ the maps
def which(c):
    """number of the map that the call is made on"""
    for x in reversed(c.objloc or ()):
        if isinstance(x, tuple) and len(x) == 3 and x[:2] == ("i", "get"):
            return number(x[2])
    return None


def number(k):
    k = cval(k) if isinstance(k, T) else k
    return int(k) if k is not None and str(k).isdigit() else None


def maps_of(ctx, g):
    """the number of maps"""
    t = g.fn.qn
    return t.count("Map,") + 1 if "Local_Map<" in t else None


def op(ctx, name, deny=()):
    fns = [f for f in ctx.prog.find(LM + name) if "<" in f.qn and not f.raw.get("implicit")]
    if not fns:
        return None        # a member that nobody uses is not instantiated
    return effects(ctx, None, fn=fns[0], deny=MAPSTEPS + STEPS[7:-1] + deny)


def each_map(ctx, g, name, what, cond=True, P=None, side=True):
    """obligation: each map gets this call once, under the condition; returns {map: call}"""
    cs = calls(g, name)
    n = maps_of(ctx, g)
    side = And(side, answers(g))
    ctx.item("%s: %s, for each map once" % (g.sid, what))
    per = {}
    for c in cs:
        k = which(c)
        if k is None:
            undecided(ctx, g, what)
            return None
        per.setdefault(k, []).append(c)
    if n is None:
        undecided(ctx, g, what)
        return None
    for k in range(n):
        if k not in per:
            if open_calls(g):
                undecided(ctx, g, what)
                return None
            ctx.violation("%s:%s:%d" % (g.sid, name, k), where(g.fn, None), "not so for map number %d: %s" % (k, what))
        elif len(per[k]) > 1:
            if disjoint(per[k]):
                continue
            ctx.violation("%s:%s:%d" % (g.sid, name, k), where(g.fn, per[k][1].node), "more than once for map number %d: %s" % (k, what))
    for k, l in per.items():
        when_any(ctx, g, l, "%s:%d" % (name, k), "%s (map %d)" % (what, k), cond, P=P or pred(g), side=side)
        if any(c.open for c in l):
            undecided(ctx, g, what + " (once)")
    return {k: l[-1] for k, l in per.items() if k < n} if set(per) == set(range(n)) else None


def answers(g):
    """what the maps answer about themselves can be anything"""
    side = True
    for t in closure(g.E, [t for c in g.c for cube in (c.S.pc or ()) for t, _ in cube]):
        if short(t) in ("get_local_map_size", "get_staged_map_size", "add_upgraded_features", "minimum_features_for_opti") and t not in g.b:
            k = map_number(t.a[1], g=g) if len(t.a) > 1 else None
            a = sym("%s of map %s (%d)" % (short(t), k, len(g.b)))
            if short(t) == "get_local_map_size" and k is not None:
                a = sym("size of map %d" % k)
            g.b[t] = a
            natural(g, a)
        if t in g.b:
            side = And(side, ge(g.b[t], const(0)))
    return side


def disjoint(cs):
    return all(a is b or not feasible_both(None, a, [b]) for a in cs for b in cs)


def open_calls(g):
    """something is called that is not understood and may do it"""
    return [c for c in g.c if any(a is not None and a.op == "lam" and a not in g.E.lamrets and a not in g.E.lams for a in c.args)]


def transform(g, v, name, i):
    return short(v) == name and of_pose(v, param(g, i))


def after(ctx, g, first, then, key, what):
    ctx.item("%s: %s" % (g.sid, what))
    if first is None or then is None:
        return
    late = [c for c in then if any(c.seq < a.seq for a in first)]
    if late:
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, late[0].node), "not so: %s" % what)


def valid_cov(g, t):
    return short(t) == "is_covariance_valid"


def updated(ctx):
    g = op(ctx, "update")
    if g is None:
        return
    ok = opaque("covariance valid")

    def hook(t):
        return ok if valid_cov(g, t) and (from_pose(t, param(g, 0))) else None
    answers(g)
    P = pred(g, hook=hook)
    ctx.item("%s: an update with an invalid covariance is refused" % g.sid)
    decide(ctx, g, None, "refused", "the update is refused exactly when the covariance of the position is not valid", Or(*[P.pc(x.S.pc) for x in g.throws]), Not(ok))
    o = each_map(ctx, g, "mark_outliers_as_unmatched", "outliers lose their match", ok, P)
    m = each_map(ctx, g, "update_map", "the map is updated", ok, P)
    s = each_map(ctx, g, "add_features_to_staged_map", "the features that were not used are added", ok, P)
    up = each_map(ctx, g, "get_upgraded_features", "upgrades are asked for", ok, P)
    for k, c in sorted((o or {}).items()):
        given(ctx, g, c, 0, lambda v: v is param(g, 2), "outliers", "the outliers are those given")
    for k, c in sorted((m or {}).items()):
        given(ctx, g, c, 0, lambda v: transform(g, v, "compute_camera_to_world_transform", 0), "update:transform", "maps are updated with the transformation of the pose given")
        if not from_pose(c.args[1], param(g, 0)):
            undecided(ctx, g, "covariance of the update")
        given(ctx, g, c, 2, lambda v: v is param(g, 1), "update:features", "maps are updated with the features given")
    for k, c in sorted((s or {}).items()):
        if not from_pose(c.args[0], param(g, 0)):
            undecided(ctx, g, "covariance of the features added")
        given(ctx, g, c, 1, lambda v: transform(g, v, "compute_camera_to_world_transform", 0), "added:transform", "features are added with the transformation of the pose given")
        given(ctx, g, c, 2, lambda v: v is param(g, 1), "added:features", "the features added are those given")
        u = c.args[3] if len(c.args) > 3 else None
        ctx.item("%s: the features used are those of this map's own update (map %d)" % (g.sid, k))
        if u is None or short(u) != "update_map":
            if u is not None and u.op in ("dflt", "init"):
                ctx.violation("%s:used:%d" % (g.sid, k), where(g.fn, c.node), "the features used by the update of the map are not excluded")
            else:
                undecided(ctx, g, "features used")
        elif m and k in m and not same_map(u, k):
            ctx.violation("%s:used:%d" % (g.sid, k), where(g.fn, c.node), "the features used are those of another map")
    if up:
        for k, c in sorted(up.items()):
            given(ctx, g, c, 0, lambda v: transform(g, v, "compute_camera_to_world_transform", 0), "upgrade:transform", "upgrades are made with the transformation of the pose given")
        au = calls(g, "add_upgraded_features")
        side = answers(g)
        n = maps_of(ctx, g)
        ctx.item("%s: the upgrades of each map are offered to every map" % g.sid)
        pairs = {}
        for c in au:
            src = source_map(c.args[0], g)
            pairs.setdefault((src, which(c)), []).append(c)
        if any(None in k for k in pairs) or any(c.open for c in au):
            undecided(ctx, g, "upgrades added")
        else:
            for i in range(n):
                for j in range(n):
                    l = pairs.get((i, j), [])
                    if not l and i != j:
                        ctx.violation("%s:upgrades" % g.sid, where(g.fn, up[i].node), "the upgrades of map %d are not offered to map %d: they would be lost" % (i, j))
                    elif len(l) > 1 and not disjoint(l):
                        ctx.violation("%s:upgrades" % g.sid, where(g.fn, l[1].node), "the upgrades of map %d are added twice to map %d" % (i, j))
                    elif l and i != j:
                        when_any(ctx, g, l, "upgrades:%d:%d" % (i, j), "the upgrades of map %d are offered to map %d" % (i, j), ok, P=pred(g, hook=P.hook), mode="covers", side=side)
    after(ctx, g, o and o.values(), m and m.values(), "order", "outliers lose their match before the maps are updated")
    after(ctx, g, m and m.values(), up and up.values(), "order:upgrade", "upgrades are asked for after all maps are updated")
    for k in sorted((m or {})):
        if s and k in s and s[k].seq < m[k].seq:
            ctx.violation("%s:order:added" % g.sid, where(g.fn, s[k].node), "features are added to the map before it is updated")


def source_map(t, g):
    """number of the map whose upgrades these are"""
    t = plain(None, t)
    if short(t) != "get_upgraded_features" or len(t.a) < 2:
        return None
    return map_number(t.a[1], g=g)


def map_number(t, depth=0, g=None):
    """number of the map that this value of a map is"""
    while isinstance(t, T) and depth < 60:
        depth += 1
        if t.op == "init":
            for x in reversed(t.a[0]):
                if isinstance(x, tuple) and len(x) == 3 and x[:2] == ("i", "get"):
                    return number(x[2])
            return None
        if t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][:2] == ("i", "get"):
            return number(t.a[1][2])
        if t.op in ("fld", "agg", "upd"):
            t = t.a[0]
        elif t.op == "mod":
            t = t.a[1]
        elif t.op == "phi" and g is not None and t in g.E.cond and depth < 30:
            ns = {map_number(v, depth + 10, g) for v, _, _ in g.E.cond[t] if v is not t} - {None}
            return ns.pop() if len(ns) == 1 else None
        else:
            return None
    return None


def same_map(u, k):
    n = map_number(u.a[1]) if len(u.a) > 1 else None
    return n is None or n == k


def simple(ctx, name, call, what, args=()):
    g = op(ctx, name)
    if g is None:
        return None, None
    return g, each_map(ctx, g, call, what)


def untracked(ctx):
    simple(ctx, "update_no_pose", "update_with_no_tracking", "the map is updated without pose")
    simple(ctx, "reset", "reset", "the map is reset")
    simple(ctx, "~Local_Map", "destroy", "the map is written at the end")


def added(ctx):
    g = op(ctx, "add_all_features_to_map")
    if g is None:
        return
    ok = opaque("covariance valid")
    P = pred(g, hook=lambda t: ok if valid_cov(g, t) and any(x is param(g, 0) for x in subterms(t)) else None)
    decide(ctx, g, None, "refused", "adding is refused exactly when the covariance is not valid", Or(*[P.pc(x.S.pc) for x in g.throws]), Not(ok))
    m = each_map(ctx, g, "add_all_features_to_staged_map", "all features are added", ok, P)
    for k, c in sorted((m or {}).items()):
        for i in (0, 1, 2):
            given(ctx, g, c, i, lambda v: v is param(g, i), "added", "features are added with the covariance, the transformation and the detections given")


def matched(ctx):
    g = op(ctx, "find_feature_matches")
    if g is None:
        return
    m = each_map(ctx, g, "get_matches", "matches are searched")
    for k, c in sorted((m or {}).items()):
        given(ctx, g, c, 0, lambda v: v is param(g, 1), "features", "matches are searched for the features given")
        given(ctx, g, c, 1, lambda v: transform(g, v, "compute_world_to_camera_transform", 0), "transform", "matches are searched from the pose given")
    for e in g.exits:
        ctx.item("%s: the matches returned are those of all maps" % g.sid)
        n = maps_of(ctx, g)
        v, seen = e.val, set()
        while v is not None and v.op == "out" and "get_matches" in str(v.a[0]):
            seen.add(map_number(v.a[2]) if isinstance(v.a[2], T) else None)
            nxt = [x for x in v.a[3:] if isinstance(x, T)]
            v = nxt[-1] if nxt else None
        if m and (v is None or v.op not in ("dflt", "agg")):
            undecided(ctx, g, "matches returned")


def tracked(ctx):
    g = op(ctx, "get_tracked_features")
    if g is None:
        return
    n = maps_of(ctx, g)
    sizes = [sym("size of map %d" % k) for k in range(n or 0)]
    side = answers(g)
    total = const(0)
    for s in sizes:
        total = total + s
    m = each_map(ctx, g, "get_tracked_features", "features to track are asked for", Not(eq(total, const(0))), side=ge(total, const(0)))
    for k, c in sorted((m or {}).items()):
        given(ctx, g, c, 0, lambda v: transform(g, v, "compute_world_to_camera_transform", 0), "transform", "the features to track are those seen from the pose given")


def candidates(ctx):
    """Feature_Map::get_tracked_features"""
    for fn in pick(ctx, "Feature_Map::get_tracked_features"):
        g = effects(ctx, None, fn=fn, deny=p19.ASK + ("get_tracked_features_container", "add_to_tracked"))
        w = p19.one_walk(ctx, g, "_localMap")
        if w is None:
            continue
        R = p19.reader(g, w, lambda t: opaque("cannot track") if t.op == "==" and any(short(u) == "get_tracked_features_container" for u in subterms(t)) else None)
        p19.exactly(ctx, g, w.of("add_to_tracked"), "tracked", "the features tracked are those of the local map that were matched last and are visible",
                    And(opaque("matched"), opaque("visible")), R, side=And(opaque("activated"), Not(opaque("past the last")), Not(opaque("cannot track"))), node=w.node, loose=True)
        for c in w.of("add_to_tracked"):
            given(ctx, g, c, 0, lambda v: v is param(g, 0), "transform", "they are tracked from the pose given")
        ctx.item("%s: staged features are not tracked" % g.sid)
        for v in p19.walks(ctx, g, "_stagedMap"):
            for c in v.of("add_to_tracked"):
                ctx.violation("%s:staged" % g.sid, where(g.fn, c.node), "features that are not yet in the map are tracked")


def searches(ctx):
    """Feature_Map::get_matches: a second, wider search when the first finds too little"""
    for fn in pick(ctx, "Feature_Map::get_matches", lambda f: len(f.params) == 4):
        g = effects(ctx, None, fn=fn, deny=("Feature_Map::get_matches", "get_detected_feature"))
        cs = calls(g, "get_matches")
        nodes = []
        for c in cs:
            if id(c.node) not in [id(n) for n in nodes]:
                nodes.append(c.node)
        ctx.item("%s: a narrow search, then a wide one" % g.sid)
        if len(nodes) != 2 or any(len(c.args) != 5 for c in cs):
            undecided(ctx, g, "searches")
            continue
        a, b = [[c for c in cs if c.node is n][-1] for n in nodes]
        n, m = sym("matches of the first search"), sym("minimum")
        out = [w.val for w in g.w if w.node is a.node and w.val is not None and w.val.op == "out" and w.val.a[1] == 4]
        for t in closure(g.E, [t for c in g.c for cube in (c.S.pc or ()) for t, _ in cube]):
            if short(t) == "size" and out and t.a[1] is out[-1]:
                g.b[t] = n
        g.b[param(g, 2)] = m
        natural(g, n, m)
        P = pred(g, hook=lambda t: eq(n, const(0)) if short(t) == "empty" and out and t.a[1] is out[-1] else None)
        when(ctx, g, a, "first", "there is always a first search", True)
        when(ctx, g, b, "second", "there is a second search exactly when the first finds fewer than needed", lt(n, m), P=P, side=ge(n, const(0)))
        for c, want, what in ((a, False, "the first search is the narrow one"), (b, True, "the second search is the wide one")):
            ctx.item("%s: %s" % (g.sid, what))
            v = cval(c.args[2])
            if v is None:
                undecided(ctx, g, what)
            elif bool(v) is not want:
                ctx.violation("%s:mode" % g.sid, where(g.fn, c.node), "not so: %s" % what)
            given(ctx, g, c, 1, lambda v: v is param(g, 1), "transform", "matches are searched from the pose given")
            ctx.item("%s: the detections searched are those given" % g.sid)
            if not any(x is param(g, 0) for x in subterms(c.args[0])):
                undecided(ctx, g, "detections searched")
        ctx.item("%s: the matches found are added to those of the other maps" % g.sid)
        mg = [c for c in calls(g, "merge") + calls(g, "splice") + calls(g, "insert") if c.objloc == (root(g, 3),)]
        if not mg:
            if not any(w.loc[:1] == (root(g, 3),) for w in g.w):
                ctx.violation("%s:merged" % g.sid, where(g.fn), "the matches found are not handed out")
            else:
                undecided(ctx, g, "matches handed out")
        for w in g.w:
            if w.loc == (root(g, 3),) and not any(x is param(g, 3) for x in subterms(w.val)):
                ctx.violation("%s:kept" % g.sid, where(g.fn, w.node), "the matches of the other maps are lost")
        if mg:
            when_any(ctx, g, mg, "merged", "the matches found are always handed out", True)
            c = mg[-1]
            vs = [x for k in c.args if k is not None for x in closure(g.E, [k])]
            if not any(x.op == "out" and "get_matches" in str(x.a[0]) for x in vs):
                undecided(ctx, g, "matches handed out")


def points(ctx):
    """MapPoint::add_to_tracked"""
    for fn in pick(ctx, "MapPoint::add_to_tracked"):
        g = effects(ctx, None, fn=fn, deny=("to_screen_coordinates", "get_random_uint", "KeypointsWithIdStruct::add", "::add"))
        cs = [c for c in calls(g, "add") if c.objloc and c.objloc[0] == root(g, 1)]
        if not cs:
            undecided(ctx, g, "points tracked")
            continue
        kept, seen = opaque("kept"), opaque("on screen")

        def hook(t):
            return seen if short(t) == "to_screen_coordinates" else None
        P = pred(g, hook=hook)
        when_any(ctx, g, cs, "tracked", "a point is tracked only when it is on the screen", seen, P=P, mode="implies")
        got = Or(*[And(P.pc(e.S.pc), P.term(e.val)) for e in g.exits])
        add = Or(*[P.pc(live(g, c)) for c in cs])
        decide(ctx, g, None, "answer", "the answer is true exactly when the point was added", got, add)
        for c in cs:
            ctx.item("%s: it is tracked under its own id at its projection" % g.sid)
            v = c.args[0]
            if v is not mine(g, "_id"):
                (ctx.violation("%s:id" % g.sid, where(g.fn, c.node), "the point is not tracked under its own id") if v.op in ("init", "c") else undecided(ctx, g, "id"))
            for i, n in ((1, "x"), (2, "y")):
                v = c.args[i]
                ok = v.op == "fld" and v.a[0].op == "out" and "to_screen_coordinates" in str(v.a[0].a[0])
                if not ok:
                    undecided(ctx, g, "projection")
                elif isinstance(v.a[1], tuple) and v.a[1][:2] == ("i", "at") and number(v.a[1][2]) not in (None, i - 1):
                    ctx.violation("%s:%s" % (g.sid, n), where(g.fn, c.node), "%s is not the coordinate of the projection" % n)
