RULE = """
Forward must-analysis over every path of each estimation entry point, helpers and callees looked through (value
numbering, joins intersect): on every exit that reports success, the fact 'validity test answered true' must be present
for each covariance argument (the argument itself, or a sum of which it is a term), for the covariance that is returned,
and at every exit (also by exception) a tracked object's stored covariance must be the one it had on entry, one
that passed the test, or zero. Assertions count for nothing.
"""
from covlib import *
from harness import where

OPS = ["SharedKalmanFilter::get_new_state", "utils::compute_plane_covariance",
       "utils::compute_reduced_plane_point_cloud_covariance", "utils::get_world_plane_covariance",
       "PointInverseDepth::PointInverseDepth", "PointInverseDepth::compute_cartesian_covariance",
       "PointInverseDepth::compute_inverse_depth_covariance", "PointInverseDepth::update_with_cartesian",
       "PointInverseDepth::track", "Point::Point", "Point::track", "tracking::Plane::track", "KalmanFilter::update",
       "ScreenCoordinate2D::get_covariance", "ScreenCoordinate::get_covariance",
       "Plane_Segment::get_point_cloud_covariance", "Pose_Optimization::compute_pose_variance",
       "Feature_Map::update_map", "Feature_Map::add_features_to_staged_map", "Feature_Map::update_local_map",
       "Feature_Map::update_staged_map", "Local_Map::update", "Local_Map::add_all_features_to_map",
       "StagedMapPlane::StagedMapPlane", "MapPlane::update_with_match"]
OWNERS = ["tracking::Point", "tracking::PointInverseDepth", "tracking::Plane", "tracking::KalmanFilter"]


def failure(fn, val):
    c = cval(val) if val is not None else None
    if fn.ret == "bool":
        return c is False
    if fn.ret in ("double", "float", "int"):
        return c is not None and c is not True and c < 0
    return False


def run(ctx):
    prog = ctx.prog
    ctx.need(predicates(prog), "the covariance validity test")
    seen = set()
    nops = 0
    for suffix in OPS:
        for fn in prog.find(suffix):
            if fn.id in seen or fn.raw.get("implicit") or fn.raw.get("defaulted"):
                continue
            seen.add(fn.id)
            nops += 1
            check_fn(ctx, fn)
    ctx.need(nops >= 8, "the estimation entry points")
    # every non-const method and constructor of the classes that own a tracked covariance
    owners = set()
    for o in OWNERS:
        for r in prog.record(o):
            owners.add(r["qn"])
    ctx.need(owners, "the tracked classes")
    for fn in list(prog.fns.values()):
        if fn.id in seen or fn.kind not in ("method", "ctor") or fn.raw.get("stat") or fn.raw.get("cst"):
            continue
        if fn.raw.get("implicit") or fn.raw.get("defaulted"):
            continue
        if strip(fn.cls) in {strip(o) for o in owners} or derives(prog, fn.cls, owners):
            check_fn(ctx, fn)
    ctx.assume("A covariance is 'tested' when the library's validity test was evaluated on that very value and its "
               "true answer dominates the exit; what the test accepts is the next property (P02).")


def idle(fn, x):
    """nothing was computed on this path: no value returned and the object untouched"""
    if fn.kind == "ctor" or not fn.cls or fn.raw.get("stat"):
        return False
    if x.val is not None and x.val.op != "dflt":
        return False
    d = x.S.store.get(("o", "this"), {})
    return all(v is mk("init", (("o", "this"),) + p) for p, v in d.items())


def derives(prog, cls, owners, d=0):
    if d > 6:
        return False
    r = prog.records.get(cls)
    if not r:
        rs = [x for x in prog.records.values() if x["qn"] == cls or x["t"] == cls]
        r = rs[0] if rs else None
    if not r:
        return False
    so = {strip(o) for o in owners}
    return any(strip(b) in so or derives(prog, b, owners, d + 1) for b in r["bases"])


def cov_fields(prog, cls):
    """(path, type) of covariance members, inherited ones included (base sub-objects share the location)"""
    out = []
    todo = [cls]
    seen = set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        for r in prog.records.values():
            if r["qn"] == c or r["t"] == c:
                for f in r["fields"]:
                    if "ovariance" in f["n"] and not f["const"] and is_cov_type(prog, f["t"]):
                        out.append(f["n"])
                todo += r["bases"]
                break
    return sorted(set(out))


def check_fn(ctx, fn):
    prog = ctx.prog
    E = Engine(prog, CovPolicy())
    exits, throws = E.run(fn)
    ctx.count("functions_analysed")
    ctx.count("callees_looked_through", len(E.inlined))
    ctx.count("exits_examined", len(exits) + len(throws))
    is_op = any(match_qn(fn.qn, s) for s in OPS)
    pars = [p for p in fn.params if is_cov_type(prog, p["t"]) and p.get("ref") != "r" and "ynamic" not in p["n"] and
            not fn.raw.get("copyctor") and not fn.raw.get("movector")]
    sid = strip(fn.qn).replace("rgbd_slam::", "")
    if is_op:
        for x in exits:
            if failure(fn, x.val):
                continue
            if idle(fn, x):
                continue
            for p in pars:
                v = x.S.read((("o", "param", p["n"] or str(p["d"])),))
                v0 = mk("init", (("o", "param", p["n"] or str(p["d"])),))
                ctx.item("%s: argument %s tested before a normal result" % (sid, p["n"]))
                if not validated(E, x.S, v0):
                    ctx.violation("%s:arg:%s" % (sid, p["n"]), where(fn, x.node),
                                  "a path returns a normal result although the covariance '%s' was never found "
                                  "valid on it" % p["n"])
            rv = x.val
            if rv is not None and fn.ret.startswith("std::pair<"):
                rv = project(rv, "second")
                check_ret(ctx, E, fn, sid, x, rv)
            elif rv is not None and is_cov_type(prog, fn.ret):
                check_ret(ctx, E, fn, sid, x, rv)
            # out parameters
            for p in fn.params:
                if p.get("ref") == "r" and is_cov_type(prog, p["t"].replace("&", "").strip()) and \
                        "ovariance" in p["n"]:
                    loc = (("o", "param", p["n"]),)
                    v = x.S.read(loc)
                    if v is not mk("init", loc):
                        ctx.item("%s: output %s tested" % (sid, p["n"]))
                        if not validated(E, x.S, v):
                            ctx.violation("%s:out:%s" % (sid, p["n"]), where(fn, x.node),
                                          "the covariance delivered in '%s' was not found valid" % p["n"])
    if fn.cls and not fn.raw.get("stat") and not fn.raw.get("cst"):
        for f in cov_fields(prog, fn.raw.get("clst") or fn.cls):
            loc = (("o", "this"), f)
            outs = [(x, "returns") for x in exits]
            if fn.kind != "ctor":
                outs += [(x, "throws") for x in throws]
            for x, how in outs:
                v = x.S.read(loc)
                if fn.kind != "ctor" and v is mk("init", loc):
                    continue
                if fn.kind == "ctor" and (fn.raw.get("copyctor") or fn.raw.get("movector")) and \
                        v.op == "init" and v.a[0][-1] == f:
                    continue
                if v.op == "init" and v.a[0][0][:2] == ("o", "param") and match_qn(fn.qn, "KalmanFilter::init"):
                    # the caller's first guess: not an estimate, the first update tests it
                    continue
                if v.op in ("dflt", "undef") or v is mk("init", loc):
                    # never given a value: covered by P24 (initialisation)
                    continue
                ctx.item("%s: stored %s tested when it %s" % (sid, f, how))
                if not validated(E, x.S, v, None if fn.kind == "ctor" else mk("init", loc)):
                    ctx.violation("%s:field:%s" % (sid, f), where(fn, x.node),
                                  "%s with a stored covariance '%s' that was not found valid" % (how, f))


def check_ret(ctx, E, fn, sid, x, rv):
    ctx.item("%s: returned covariance tested" % sid)
    if not validated(E, x.S, rv):
        ctx.violation("%s:ret" % sid, where(fn, x.node), "returns a covariance that was not found valid on that path")
