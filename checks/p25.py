RULE = """
Extraction of keypoints, from value numbers with exact path conditions. The points kept by optical flow are decided over the two
loops that filter them (forward: found and inside the image; backward: found and back near the start), with the lists of positions
and of indices followed in step; what each call to OpenCV is given, and what is done with its result, is followed call by call;
the detection windows are compared with the tiling as rational functions.
"""
import os
import re
from effects import *
from p22 import short, param, mine, once
from p24 import all_terms, within_loop
from facts import REPO

KE = "Key_Point_Extraction::"
ADD = ("push_back", "emplace_back")


def run(ctx):
    for f in (flow, extraction, detection, cells, mask, windows):
        ctx.group(f)
    ctx.assume("Optical flow, corner detection, refinement, descriptors and drawing are OpenCV's.")


def parameter(name):
    """a whole constant of the parameters"""
    try:
        m = re.search(r"\b%s\s*(?:=|\{)\s*([0-9]+)\s*[;}]" % name, open(os.path.join(REPO, "src/parameters.hpp")).read())
    except OSError:
        return None
    return int(m.group(1)) if m else None


def outcall(t, name, i):
    """the arguments of the call that gave the output i"""
    if t.op == "out" and str(t.a[0]).split("::")[-1] == name and t.a[1] == i:
        return t.a[2:]
    return None


def item_of(t):
    """(list, index) when t is an element of a list held in a value"""
    if t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][0] == "i" and len(t.a[1]) == 3 and isinstance(t.a[1][2], T):
        return t.a[0], t.a[1][2]
    if t.op == "init" and len(t.a[0]) > 1 and isinstance(t.a[0][-1], tuple) and t.a[0][-1][0] == "i" and len(t.a[0][-1]) == 3 and \
            isinstance(t.a[0][-1][2], T):
        return mk("init", t.a[0][:-1]), t.a[0][-1][2]
    return None


def plain(t):
    while t.op == "call" and short(t) in ("static_cast",) and len(t.a) == 2:
        t = t.a[1]
    return t


def must(ctx, g, node, key, what, ok, known=True):
    ctx.item("%s: %s" % (g.sid, what))
    if ok:
        return True
    if not known:
        undecided(ctx, g, what)
        return False
    ctx.violation("%s:%s" % (g.sid, key), where(g.fn, node), "not so: %s" % what)
    return False


def origin(t):
    """the value comes from the inputs and the calls followed here"""
    return t is not None and t.op in ("init", "out", "dflt", "c", "fld", "agg", "mod")


# ------------------------------------------------------------------ optical flow
def flow(ctx):
    g = effects(ctx, KE + "get_keypoints_from_optical_flow", deny=("is_in_border",))
    prev, cur, last = param(g, 0), param(g, 1), root(g, 2)
    limit = sym("greatest distance")
    g.b[param(g, 5)] = limit
    pts, ids = mk("init", (last, "_keypoints")), mk("init", (last, "_ids"))
    cs = calls(g, "calcOpticalFlowPyrLK")
    nodes = []
    for c in cs:
        if not any(c.node is n for n in nodes):
            nodes.append(c.node)
    if len(nodes) != 2 or any(len(c.args) < 8 for c in cs):
        return undecided(ctx, g, "the two flows")
    fw, bw = [[c for c in cs if c.node is n][-1] for n in nodes]
    A = fw.args
    must(ctx, g, fw.node, "forward", "the first flow goes from the previous frame to the current one", A[0] is prev and A[1] is cur,
         all(x.op == "init" for x in A[:2]))
    must(ctx, g, fw.node, "forward:points", "the first flow follows the points given", A[2] is pts, origin(A[2]))
    B = bw.args
    must(ctx, g, bw.node, "backward", "the second flow goes from the current frame to the previous one", B[0] is cur and B[1] is prev,
         all(x.op == "init" for x in B[:2]))
    for i, n in ((6, "window"), (7, "pyramid depth")):
        must(ctx, g, bw.node, n, "both flows use the %s given" % n, A[i] is B[i], origin(A[i]) and origin(B[i]))
    ts = all_terms(g)
    n = sym("points given")
    for t in ts:
        if short(t) == "size" and len(t.a) > 1 and t.a[1] in (pts, ids):
            g.b[t] = n
    natural(g, n)
    # the points that the first flow keeps
    src = bw.args[2].a[1] if bw.args[2].op == "phi" else bw.arglocs[2]
    first = [c for c in g.c if c.name in ADD and c.objloc is not None and c.seq < bw.seq and len(c.open) == 1]
    keep = [c for c in first if c.objloc == src]
    index = [c for c in first if c.objloc != src and c.args and keep and c.open == keep[-1].open]
    if outcall(bw.args[2], "calcOpticalFlowPyrLK", 3) is not None:
        return ctx.violation("%s:backward:points" % g.sid, where(g.fn, bw.node), "the second flow starts from all the points, not from the ones kept")
    if src is None or len({id(c.node) for c in keep}) != 1 or len({id(c.node) for c in index}) != 1:
        return undecided(ctx, g, "lists of the points kept by the first flow")
    keep, index = keep[-1], index[-1]
    key = next(iter(keep.open))
    k = index.args[0]
    v = item_of(keep.args[0])
    if v is not None and v[1].op == "phi" and v[1].a[0] == key and k is not v[1] and any(
            short(t) == "size" for t in subterms(k)):
        return ctx.violation("%s:index" % g.sid, where(g.fn, index.node), "the index kept is not the one of the point")
    if k.op != "phi" or k.a[0] != key or span(ctx, g, k, const(0), n, "point") is None:
        return undecided(ctx, g, "index of a point kept")
    v = item_of(keep.args[0])
    fwd = v[0] if v else None
    if v is None or outcall(fwd, "calcOpticalFlowPyrLK", 3) is None:
        if v is not None and v[0] is pts:
            return ctx.violation("%s:kept" % g.sid, where(g.fn, keep.node), "the position kept is the previous one")
        return undecided(ctx, g, "position kept")
    must(ctx, g, keep.node, "kept", "the position kept is the one found for this point", v[1] is k and
         outcall(fwd, "calcOpticalFlowPyrLK", 3)[:3] == A[:3] or tuple(outcall(fwd, "calcOpticalFlowPyrLK", 3)[:3]) == tuple(A[:3]) and v[1] is k)
    found, inside = opaque("found in the current frame"), opaque("inside the image")
    bad = []

    def hook(t):
        if t.op == "==" and any(cval(x) == 1 for x in t.a):
            x = next(x for x in t.a if cval(x) != 1)
            e = item_of(x)
            if e is not None and (outcall(e[0], "calcOpticalFlowPyrLK", 4) or ())[:2] == tuple(A[:2]):
                if e[1] is k:
                    return found
                bad.append("the status of another point")
        if short(t) == "is_in_border" and len(t.a) > 2:
            e = item_of(t.a[1])
            im = item_of(t.a[2])
            if e is not None and e[0] is fwd and e[1] is k and im is not None and im[0] in (cur, prev) and cval(im[1]) == 0 and \
                    (len(t.a) < 4 or cval(t.a[3]) == 0):
                return inside
            if e is not None and e[0] in (fwd, pts):
                bad.append("another position")
        return None
    P = within_loop(g, pred(g, hook=hook), key)
    for c, w in ((keep, "position"), (index, "index")):
        when(ctx, g, c, "filter", "the %s of a point is kept when it is found, inside the image" % w, And(found, inside), P, side=True)
        h = carried(g, key).get(c.objloc)
        ctx.item("%s: the list of the %ss is empty before" % (g.sid, w))
        if h is None or not empty(h[1]):
            undecided(ctx, g, "list of the %ss" % w)
    if bad:
        ctx.violation("%s:status" % g.sid, where(g.fn, keep.node), "the test looks at %s" % bad[0])
    # the second flow
    must(ctx, g, bw.node, "backward:points", "the second flow starts from the points kept", bw.args[2].op == "phi" and bw.args[2].a[0] == key,
         origin(bw.args[2]))
    out = root(g, 6)
    adds = [c for c in g.c if c.seq > bw.seq and c.name in ADD and c.objloc is not None and c.objloc[:1] == (out,)]
    field = {f: [c for c in adds if c.objloc == (out, f)] for f in ("_keypoints", "_ids")}
    if any(len({id(c.node) for c in cs}) != 1 for cs in field.values()):
        return undecided(ctx, g, "points returned")
    cp, ci = field["_keypoints"][-1], field["_ids"][-1]
    if len(cp.open) != 1 or cp.open != ci.open:
        return undecided(ctx, g, "loop over the points kept")
    key2 = next(iter(cp.open))
    kept = g.E and bw.args[2]
    bwd = [t for t in ts if outcall(t, "calcOpticalFlowPyrLK", 3) is not None and tuple(outcall(t, "calcOpticalFlowPyrLK", 3)[:2]) == tuple(B[:2])]
    stat = [t for t in ts if outcall(t, "calcOpticalFlowPyrLK", 4) is not None and tuple(outcall(t, "calcOpticalFlowPyrLK", 4)[:2]) == tuple(B[:2])]
    lists = [kept] + [t for t in ts if t.op == "phi" and t.a[0] == key and t.a[1] in (src, index.objloc)]
    idxl = [t for t in lists if t.a[1] == index.objloc]
    m = sym("points kept")
    natural(g, m)
    for t in ts:
        if short(t) == "size" and len(t.a) > 1 and t.a[1] in lists + bwd + stat:
            g.b[t] = m
    # the index of the loop: the one the list of indices is read at
    ix = {e[1] for t in ts for e in (item_of(t),) if e is not None and e[0] in lists + bwd + stat}
    ix = [x for x in ix if x.op == "phi" and x.a[0] == key2]
    if len(ix) != 1:
        return undecided(ctx, g, "index of the loop over the points kept")
    i = ix[0]
    if span(ctx, g, i, const(0), m, "point kept") is None:
        return
    at_i = lambda t, ls: (lambda e: e is not None and e[0] in ls and e[1] is i)(item_of(t))
    own = lambda t: at_i(t, idxl)

    def place(t):
        """what a position is"""
        e = item_of(t)
        if e is None:
            return None
        if e[0] is fwd and own(e[1]) or e[0] in lists and e[0] not in idxl and e[1] is i:
            return "new"
        if e[0] is pts and own(e[1]):
            return "start"
        if e[0] in bwd and e[1] is i:
            return "back"
        if e[0] in [fwd, pts] + bwd + lists:
            return "another"
        return None
    e = item_of(ci.args[0])
    must(ctx, g, ci.node, "id", "each point keeps its own id", e is not None and e[0] is ids and own(e[1]), e is not None)
    p = place(cp.args[0])
    must(ctx, g, cp.node, "position", "each point is returned at the position found in the current frame", p == "new", p is not None)
    back, d = opaque("found back"), sym("distance to the start")
    bad2 = []
    for t in ts:
        if short(t) == "norm" and len(t.a) == 2 and t.a[1].op == "-" and len(t.a[1].a) == 2:
            ps = [place(x) for x in t.a[1].a]
            if set(ps) == {"start", "back"}:
                g.b[t] = d
                g.nonneg = True
            elif None not in ps:
                bad2.append("the distance compared is not the one to the start of this point")

    def hook2(t):
        if t.op == "==" and any(cval(x) == 1 for x in t.a):
            x = next(x for x in t.a if cval(x) != 1)
            if at_i(x, stat):
                return back
            e = item_of(x)
            if e is not None and outcall(e[0], "calcOpticalFlowPyrLK", 4) is not None:
                bad2.append("the status looked at is not the one of the second flow for this point")
        return None
    for c in (cp, ci):
        P2 = within_loop(g, pred(g, hook=hook2), key2)
        when(ctx, g, c, "kept", "a point is returned when it is found back within the greatest distance of its start",
             And(back, le(d, limit)), P2)
    for b in bad2[:1]:
        ctx.violation("%s:back" % g.sid, where(g.fn, cp.node), b)


# ------------------------------------------------------------------ one frame
def extraction(ctx):
    g = effects(ctx, KE + "compute_keypoints", deny=("get_keypoints_from_optical_flow", "detect_keypoints", "Keypoint_Handler::set"))
    gray, depth, lastp = param(g, 0), param(g, 1), root(g, 2)
    pyr = mine(g, "_lastFramePyramide")
    b, f, d, h = [once(ctx, g, n, n) for n in ("buildOpticalFlowPyramid", "get_keypoints_from_optical_flow", "detect_keypoints", "set")]
    if None in (b, f, d, h):
        return
    new = next((w.val for w in g.w if w.node is b.node and w.val is not None and outcall(w.val, "buildOpticalFlowPyramid", 1)), None)
    if new is None:
        return undecided(ctx, g, "pyramid of the frame")
    must(ctx, g, b.node, "pyramid", "the pyramid is the one of the image given", b.args[0] is gray, origin(b.args[0]))
    must(ctx, g, f.node, "flow:previous", "the flow starts from the pyramid of the frame before", f.args[0] is pyr, origin(f.args[0]))
    must(ctx, g, f.node, "flow:current", "the flow goes to the pyramid of this frame", f.args[1] is new, origin(f.args[1]))
    must(ctx, g, f.node, "flow:points", "the flow follows the points of the frame before", f.args[2] is param(g, 2), origin(f.args[2]))
    must(ctx, g, f.node, "flow:depth", "the flow uses the depth of the pyramids", f.args[3] is b.args[3] or
         cval(f.args[3]) is not None and cval(f.args[3]) == cval(b.args[3]), cval(f.args[3]) is not None and cval(b.args[3]) is not None)
    must(ctx, g, f.node, "flow:window", "the flow uses the window of the pyramids", f.args[4] is b.args[2], f.args[4].op == "new" and b.args[2].op == "new")
    nop, nok, force = opaque("no frame before"), opaque("no point before"), opaque("detection asked for")
    size = sym("points tracked")
    natural(g, size)
    most = parameter("maximumPointPerFrame")
    if most is None:
        return undecided(ctx, g, "number of points per frame")
    tracked = f.arglocs[6] if len(f.arglocs) > 6 else None
    if tracked is None:
        return undecided(ctx, g, "points tracked")
    ts = all_terms(g)

    def is_tracked(t, field="_keypoints"):
        return t is not None and (t.op == "phi" and t.a[1] in (tracked + (field,), tracked) or
                                  t.op == "fld" and t.a[1] == field and is_tracked(t.a[0]) or
                                  t.op == "agg" and t.a[0] == tracked or t.op == "agg" and isinstance(t.a[0], T) and is_tracked(t.a[0], field) or
                                  outcall(t, "get_keypoints_from_optical_flow", 6) is not None)
    for t in ts:
        if short(t) == "size" and len(t.a) > 1 and (is_tracked(t.a[1]) or is_tracked(t.a[1], "_ids")):
            g.b[t] = size

    def hook(t):
        if short(t) == "empty" and len(t.a) > 1:
            if t.a[1] is pyr:
                return nop
            if t.a[1].op == "init" and t.a[1].a[0] in ((lastp, "_keypoints"), (lastp, "_ids")):
                return nok
        if t is param(g, 3):
            return force
        return None
    P = pred(g, hook=hook)
    when(ctx, g, f, "flow", "points are tracked when there are points and a frame before", And(Not(nop), Not(nok)), P)
    P = pred(g, hook=hook)
    when(ctx, g, d, "detection", "points are detected when asked for, or when fewer than the maximum are tracked",
         Or(force, lt(size, const(most))), P)
    must(ctx, g, d.node, "detection:image", "points are detected in the image given", d.args[0] is gray, origin(d.args[0]))
    must(ctx, g, d.node, "detection:tracked", "the points tracked are not detected again", is_tracked(d.args[1]),
         d.args[1].op in ("init", "dflt") or d.args[1].op == "phi" and d.args[1].a[1] == tracked[:1] + ("_ids",))
    # the pyramid kept
    ctx.item("%s: the pyramid of this frame is kept for the next one" % g.sid)
    for x in g.exits:
        for ch, (v,), pcs in cases(g, x.S, [x.S.read((THIS, "_lastFramePyramide"))]):
            if v is new or v.op in ("move",) and v.a[0] is new:
                continue
            if v is pyr or v.op in ("dflt", "mod"):
                ctx.violation("%s:kept" % g.sid, where(g.fn, x.node), "the pyramid of this frame is not kept for the next one")
            else:
                undecided(ctx, g, "pyramid kept")
    # what the handler is given
    comp = calls(g, "compute")
    if len({id(c.node) for c in comp}) != 1:
        return undecided(ctx, g, "descriptors")
    comp = comp[-1]
    must(ctx, g, comp.node, "descriptors:image", "the descriptors are the ones of the image given", comp.args[0] is gray, origin(comp.args[0]))
    kp = lambda t: (lambda o: o is not None and short(o[0]) == "detect_keypoints")(outcall(t, "convert", 1))
    must(ctx, g, comp.node, "descriptors:points", "the descriptors are the ones of the points detected", kp(comp.args[1]), origin(comp.args[1]))
    must(ctx, g, h.node, "handler:tracked", "the handler is given the points tracked", is_tracked(h.args[2]), h.args[2].op in ("init", "dflt"))
    must(ctx, g, h.node, "handler:depth", "the handler is given the depth image", h.args[3] is depth, origin(h.args[3]))
    det = lambda t: outcall(t, "compute", 2) is not None and t.a[2] is gray or \
        (lambda o: o is not None and o[1].op == "dflt" and det(o[0]))(outcall(t, "vconcat", 2))      # with none before
    pos = lambda t: (lambda o: o is not None and outcall(o[0], "compute", 1) is not None)(outcall(t, "convert", 1))
    ctx.item("%s: the points detected and their descriptors go to the handler together" % g.sid)
    none = lambda v: empty(v) or v.op == "dflt"
    try:
        cs = cases(g, h.S, [h.args[0], h.args[1]])
    except Shape as e:
        return undecided(ctx, g, "points given to the handler (%s)" % e)
    for ch, (p, q), pcs in cs:
        if pos(p) and det(q) or none(p) and none(q) or short(p) == "detect_keypoints" and none(q):
            if short(p) == "detect_keypoints":
                # only when there are none
                P = pred(g, hook=hook)
                nodet = [t for t in ts if short(t) == "empty" and short(t.a[1]) == "detect_keypoints"]
                ok = [c for pc in pcs for c in (pc or ()) if not any((t, True) in c for t in nodet)]
                if ok and nodet:
                    continue
            continue
        if (pos(p) or kp_raw(p)) and (det(q) or none(q)):
            ctx.violation("%s:handler" % g.sid, where(g.fn, h.node), "the points given to the handler are not the ones of the descriptors")
        else:
            undecided(ctx, g, "points given to the handler: %s, %s" % (show(p)[:60], show(q)[:60]))
    ctx.item("%s: the handler returned is the one filled for this frame" % g.sid)
    for x in g.exits:
        u = [t for t in closure(g.E, [x.val]) if t.op == "mod" and t.a[0] == "set"] if x.val is not None else []
        if not u:
            undecided(ctx, g, "handler returned")


def kp_raw(p):
    return short(p) == "detect_keypoints" or outcall(p, "convert", 1) is not None


# ------------------------------------------------------------------ detection in a frame
def detection(ctx):
    g = effects(ctx, KE + "detect_keypoints", deny=("perform_keypoint_detection",))
    c = once(ctx, g, "perform_keypoint_detection", "detection")
    if c is None:
        return
    must(ctx, g, c.node, "image", "the points are detected in the image given", c.args[0] is param(g, 0), origin(c.args[0]))
    must(ctx, g, c.node, "known", "the points already known are given to the detection", c.args[1] is param(g, 1), origin(c.args[1]))
    ctx.item("%s: the points returned are the refined positions of the points detected" % g.sid)
    for x in g.exits:
        for ch, (v,), pcs in cases(g, x.S, [x.val]):
            o = outcall(v, "cornerSubPix", 1)
            if o is not None:
                k = outcall(o[1], "convert", 1)
                must(ctx, g, x.node, "refined", "the positions are refined in the image given", o[0] is param(g, 0), origin(o[0]))
                must(ctx, g, x.node, "points", "the points returned are the ones detected",
                     k is not None and outcall(k[0], "perform_keypoint_detection", 2) is not None, origin(o[1]))
            elif not empty(v):
                undecided(ctx, g, "points returned")


# ------------------------------------------------------------------ detection in a cell
def cells(ctx):
    g = effects(ctx, KE + "perform_keypoint_detection", deny=("compute_key_point_mask",))
    c = once(ctx, g, "compute_key_point_mask", "mask of the known points")
    ins = [x for x in g.c if x.name == "insert" and x.objloc == (root(g, 2),)]
    if c is None or len({id(x.node) for x in ins}) != 1:
        return undecided(ctx, g, "list of the points")
    ins = ins[-1]
    must(ctx, g, c.node, "mask", "the mask is the one of the points already known", c.args[1] is param(g, 1), origin(c.args[1]))
    most = parameter("maximumPointPerFrame")
    h, w = parameter("keypointCellDetectionHeightCount"), parameter("keypointCellDetectionWidthCount")
    if None in (most, h, w):
        return undecided(ctx, g, "number of points per cell")
    cell = most // (h * w)
    counts = c.arglocs[3]
    ds = [x for x in g.c if x.name == "detect" and x.objloc is not None]
    ts = all_terms(g)
    n = sym("points in this cell")
    found = sym("points found")
    natural(g, n, found)
    ix = set()
    for t in ts:
        e = item_of(t)
        if e is not None and outcall(e[0], "compute_key_point_mask", 3) is not None and e[1].op != "old":
            g.b[t] = n
            ix.add(e[1])
    if len(ix) != 1:
        return undecided(ctx, g, "number of points in a cell")
    i = ix.pop()
    win = mk("init", (THIS, "_detectionWindows", ("i", "at", i)))
    kinds = {}
    for x in ds:
        p = x.objloc[0][1] if x.objloc and isinstance(x.objloc[0], tuple) and x.objloc[0][0] == "deref" else None
        p = p.a[0] if isinstance(p, T) and p.op == "init" else p
        kinds.setdefault(str(p), []).append(x)
    plain_ = [x for k, xs in kinds.items() if "_featureDetectors" in k for x in xs]
    adv = [x for k, xs in kinds.items() if "_advancedFeatureDetectors" in k for x in xs]
    if len({id(x.node) for x in plain_}) != 1 or len({id(x.node) for x in adv}) != 1 or len(ds) != len(plain_) + len(adv):
        return undecided(ctx, g, "detectors")
    plain_, adv = plain_[-1], adv[-1]
    for x, what in ((plain_, "detector"), (adv, "advanced detector")):
        im, mk_ = item_of(x.args[0]), item_of(x.args[2])
        must(ctx, g, x.node, "image", "the %s is given the part of the image of this cell" % what,
             im is not None and im[0] is param(g, 0) and im[1] is win, im is not None)
        must(ctx, g, x.node, "mask", "the %s is given the part of the mask of this cell" % what,
             mk_ is not None and short(mk_[0]) == "compute_key_point_mask" and mk_[1] is win, mk_ is not None or cval(x.args[2]) is not None or x.args[2].op == "call")
        s = str(x.objloc[0][1])
        must(ctx, g, x.node, "detector", "the %s is the one of this cell" % what, i in ploc(x.objloc), True)
    for t in ts:
        if short(t) == "size" and len(t.a) > 1 and outcall(t.a[1], "detect", 1) is not None:
            g.b[t] = found
    within = lambda: pred(g)
    when(ctx, g, plain_, "cell", "points are searched in the cells that have fewer than their share", lt(n, const(cell)), within())
    when(ctx, g, adv, "advanced", "the advanced detector is used when the detector finds fewer points than what is left", And(
        lt(n, const(cell)), lt(found, const(cell) - n)), within())
    when(ctx, g, ins, "insert", "the points of each cell searched are returned", lt(n, const(cell)), within())
    # moved to the image
    ctx.item("%s: the points are moved from the cell to the image" % g.sid)
    lst = plain_.arglocs[1]
    moved = {}
    for x in g.w:
        if lst is not None and x.loc[:len(lst)] == lst and x.loc[-2:] in (("pt", "x"), ("pt", "y")):
            moved[x.loc[-1]] = x
    if set(moved) != {"x", "y"}:
        undecided(ctx, g, "points moved to the image")
    for ax, x in moved.items():
        v, o = sym("position in the cell"), sym("cell " + ax)
        for t in closure(g.E, [x.val]):
            if t.op == "init" and t.a[0] == win.a[0] + (ax,):
                g.b[t] = o
            elif t.op == "fld" and t.a[1] == ax and t.a[0].op == "fld" and t.a[0].a[1] == "pt":
                g.b[t] = v
            elif t.op == "init" and t.a[0][:-1] == win.a[0]:
                g.b[t] = sym("cell " + str(t.a[0][-1]))
        value_is(ctx, g, x.node, "moved", "the %s of a point in the image" % ax, x.val, v + o)
    r = once(ctx, g, "retainBest", "best points")
    if r is not None:
        rp = pred(g)
        value_is(ctx, g, r.node, "best", "the number of points kept in a cell", strip_max(r.args[1]), const(cell) - n)
    ctx.item("%s: the list is only changed under the lock in the cells" % g.sid)
    locks = [x for x in g.c if x.open == ins.open and x.seq < ins.seq and
             ("lock" in str(x.full) or x.objloc is not None and "lock" in str(x.objloc))]
    if any("parallel_for" in x.name for x in g.c) and not locks:
        ctx.violation("%s:lock" % g.sid, where(g.fn, ins.node), "the points of a cell are added without the lock")


def ploc(loc):
    """terms in a place"""
    out = set()
    st = [loc]
    while st:
        x = st.pop()
        if isinstance(x, T):
            out.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def strip_max(t):
    if t.op == "max" or short(t) == "max":
        xs = [x for x in t.a if isinstance(x, T) and cval(x) != 0]
        return xs[0] if len(xs) == 1 else t
    return t


# ------------------------------------------------------------------ mask of the points already known
def mask(ctx):
    g = effects(ctx, KE + "compute_key_point_mask")
    s, c = once(ctx, g, "setTo", "reset of the mask"), once(ctx, g, "circle", "mask of a point")
    if s is None or c is None:
        return
    m = s.objloc
    ctx.item("%s: the mask is reset before the points are drawn" % g.sid)
    if m is None or c.arglocs[0] != m:
        return undecided(ctx, g, "mask")
    if len(s.open) or not always(s.S) or s.seq > c.seq:
        ctx.violation("%s:reset" % g.sid, where(g.fn, s.node), "the mask is not reset for each frame")
    must(ctx, g, s.node, "reset", "the mask lets everything through at first", cval(s.args[0]) == 255, cval(s.args[0]) is not None)
    if len(c.open) != 1:
        return undecided(ctx, g, "loop over the points")
    key = next(iter(c.open))
    p = c.args[1]
    while p.op == "call" and "Point" in str(p.a[0]) and len(p.a) == 2:
        p = p.a[1]
    e = item_of(p)
    if e is None or e[0] is not param(g, 1):
        return undecided(ctx, g, "point masked")
    must(ctx, g, c.node, "circle", "a disc is removed from the mask", cval(c.args[3]) == 0 and cval(c.args[4]) is not None and cval(c.args[4]) < 0,
         cval(c.args[3]) is not None and cval(c.args[4]) is not None)
    P = pred(g)
    when(ctx, g, c, "masked", "every point is masked", True, P)
    cnt = (root(g, 3),)
    el, wh, odd = writes(g, cnt)
    ctx.item("%s: the counts start at zero" % g.sid)
    if not wh or wh[0].val.op != "mod" or wh[0].val.a[0] != "fill" or cval(wh[0].val.a[2]) is None:
        undecided(ctx, g, "first counts")
    elif cval(wh[0].val.a[2]) != 0 or wh[0].S.pc is None or not always(wh[0].S) or getattr(wh[0], "open", None):
        ctx.violation("%s:counts" % g.sid, where(g.fn, wh[0].node), "the counts do not start at zero")
    if len({id(w.node) for w, _ in el}) != 1:
        return undecided(ctx, g, "count of a window")
    w, (j,) = el[-1]
    inwin = opaque("the point is in this window")

    def hook(t):
        if short(t) == "contains" and len(t.a) == 3:
            q = t.a[2]
            while q.op == "call" and "Point" in str(q.a[0]) and len(q.a) == 2:
                q = q.a[1]
            e = item_of(t.a[1])
            if q is p and e is not None and e[0] is mine(g, "_detectionWindows") and e[1] is j:
                return inwin
        return None
    if j.op != "phi" or j.a[0] not in g.ends:
        return undecided(ctx, g, "window counted")
    test = [x for x in g.c if x.name == "contains" and j.a[0] in x.open]
    if len({id(x.node) for x in test}) != 1:
        return undecided(ctx, g, "windows tested")
    P = within_loop(g, pred(g, hook=hook), j.a[0], test[-1])
    W_ = sym("windows")
    lastj = [t for t in all_terms(g) if short(t) == "size" and len(t.a) > 1 and t.a[1] is mine(g, "_detectionWindows")]
    for t in lastj:
        g.b[t] = W_
    natural(g, W_, sym("window index"))
    g.b[j] = sym("window index")
    when(ctx, g, w, "count", "a point is counted in the window that contains it", inwin, P)
    prev = sym("previous count")
    for t in closure(g.E, [w.val]):
        e = elem(t)
        if e is not None and e[0] == cnt and e[1] == [j]:
            g.b[t] = prev
        e = item_of(t)
        if e is not None and e[1] is j and e[0].op == "phi" and e[0].a[1] == cnt:
            g.b[t] = prev
    value_is(ctx, g, w.node, "count:value", "the count of the window", w.val, prev + const(1))
    ctx.item("%s: the mask returned is the one drawn" % g.sid)
    for x in g.exits:
        if x.val is None or not (x.val.op in ("phi", "init") and x.val.a[1 if x.val.op == "phi" else 0] == m or outcall(x.val, "circle", 0)):
            undecided(ctx, g, "mask returned")


# ------------------------------------------------------------------ detection windows
def windows(ctx):
    g = effects(ctx, KE + "Key_Point_Extraction", pred=lambda f: not f.params, loops=False)
    h, w = parameter("keypointCellDetectionHeightCount"), parameter("keypointCellDetectionWidthCount")
    if None in (h, w):
        return undecided(ctx, g, "number of windows")
    W_, H_ = sym("image width"), sym("image height")
    el, wh, odd = writes(g, (THIS, "_detectionWindows"))
    done = {}
    for x, ix in el:
        k = cval(ix[0]) if len(ix) == 1 else None
        if k is None or x.val is None or x.val.op != "new" or len(x.val.a) != 5:
            return undecided(ctx, g, "windows")
        done[int(k)] = x
    cw, ch = None, None
    ctx.item("%s: every window is defined" % g.sid)
    if set(done) != set(range(h * w)):
        if odd or wh:
            return undecided(ctx, g, "windows")
        ctx.violation("%s:windows" % g.sid, where(g.fn, el[0][0].node if el else None), "the windows defined are %s of %d" % (sorted(done), h * w))
    size = {}
    for t in closure(g.E, [x.val for x in done.values()]):
        if t.op == "idiv" and t.a[0].op == "init" and cval(t.a[1]) is not None:
            ax = cval(t.a[0].a[0][-1][2]) if isinstance(t.a[0].a[0][-1], tuple) and len(t.a[0].a[0][-1]) > 2 else None
            if "camera1ImageSize" in str(t.a[0].a[0]) and ax in (0, 1) and cval(t.a[1]) == (w, h)[int(ax)]:
                g.b[t] = sym("window width" if ax == 0 else "window height")
    for k, x in sorted(done.items()):
        for i, (ax, want) in enumerate((("left", const(k % w) * sym("window width")), ("top", const(k // w) * sym("window height")),
                                        ("width", sym("window width")), ("height", sym("window height")))):
            value_is(ctx, g, x.node, "window", "the %s of window %d" % (ax, k), x.val.a[i + 1], want)
    for f, what in (("_featureDetectors", "detector"), ("_advancedFeatureDetectors", "advanced detector")):
        el, wh, odd = writes(g, (THIS, f))
        n = {int(cval(ix[0])) for x, ix in el if len(ix) == 1 and cval(ix[0]) is not None}
        must(ctx, g, el[0][0].node if el else None, "detectors", "every window has its %s" % what, n == set(range(h * w)), bool(el) and not odd and not wh and
             all(cval(ix[0]) is not None for _, ix in el))
