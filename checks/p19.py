RULE = """
Walks of the feature maps (every instantiation of the map class) are found by their loops over the stored features: typestate
of the iterator at the end of each iteration (advanced once, or replaced by what erase returned; no use after erase, no other
way out of the loop), and every effect of the walk (update, write to the file, erase, promotion, upgrade, match flags) is
collected with its exact path condition and compared with the condition specified for it; conditions evaluated before the
update they depend on are reported. Counters, ids and the answers of the features are compared as functions of the members.
"""
from fractions import Fraction

from effects import *
import formula

FM = "Feature_Map::"
LM = "map_management::"
ASK = ("update_with_match", "update_matched", "update_unmatched", "is_lost", "is_moving", "write_to_file",
       "should_add_to_local_map", "should_remove_from_staged", "compute_upgraded", "find_matches", "is_visible",
       "mark_matched", "mark_unmatched", "can_add_to_map", "is_matched", "at", "get_type", "get_feature_type",
       "is_covariance_valid", "get_display_name", "update_no_match")
CTORS = ("LocalMapPoint", "LocalMapPoint2D", "LocalMapPlane", "StagedMapPoint", "StagedMapPoint2D", "StagedMapPlane")
NAMES = {"is_lost": "lost", "is_moving": "moving", "should_add_to_local_map": "ready for the map",
         "should_remove_from_staged": "rejected", "compute_upgraded": "upgraded", "is_visible": "visible",
         "can_add_to_map": "can be added", "is_matched": "matched", "update_with_match": "update succeeded",
         "is_covariance_valid": "valid covariance"}


def run(ctx):
    ctx.group(local)
    ctx.group(staged)
    ctx.group(untracked)
    ctx.group(upgrades)
    ctx.group(matching)
    ctx.group(unmatching)
    ctx.group(adding)
    ctx.group(identity)
    ctx.group(counters)
    ctx.group(answers)
    ctx.group(emptied)
    ctx.assume("The answers of a feature about itself (lost, moving, visible, ready) do not change while it is asked; assert is not evaluated.")


def short(t):
    return str(t.a[0]).split("::")[-1].split("<")[0] if t.op == "call" and t.a and isinstance(t.a[0], str) else ""


def field(f):
    return (THIS, f)


def within(node, kinds, top=True):
    """statements of these kinds that leave the loop node"""
    out = []
    if isinstance(node, list):
        for x in node:
            out += within(x, kinds, False)
        return out
    if not isinstance(node, dict):
        return out
    k = node.get("k")
    if k == "lambda":
        return out
    if k in kinds:
        out.append(node)
    if k in ("for", "while", "do", "rfor", "switch") and not top:
        kinds = tuple(x for x in kinds if x != "break")
    for x in node.values():
        if isinstance(x, (dict, list)):
            out += within(x, kinds, False)
    return out


class Walk:
    """one loop over the features of a map"""

    def __init__(self, g, key, field, prefix, it=None, loc=None):
        self.g, self.key, self.field, self.prefix, self.it, self.loc = g, key, field, prefix, it, loc
        self.S, self.F, self.node = g.ends[key]

    def on(self, loc):
        return loc is not None and loc[:len(self.prefix)] == self.prefix

    def calls(self, *names):
        return [c for c in self.g.c if c.name in names and self.key in c.open]

    def of(self, *names):
        return [c for c in self.calls(*names) if c.objloc is not None and c.objloc == self.prefix]


def walks(ctx, g, f):
    """the loops over the features stored in the map f"""
    out = []
    for key in g.ends:
        for loc, (h, first, nxt) in carried(g, key).items():
            if first.op == "begin" and tuple(first.a) == ((THIS, f),) or first.op == "begin" and first.a == (field(f),):
                out.append(Walk(g, key, f, (("deref", h), "second"), h, loc))
                break
        else:
            hit = None
            for e in g.c + g.w:
                loc = e.objloc if isinstance(e, C) else e.loc
                if loc and key in e.open:
                    for i, x in enumerate(loc):
                        if isinstance(x, tuple) and len(x) > 2 and x[0] == "i" and x[1] == "elem" and isinstance(x[2], T) and \
                                x[2].op == "iter" and x[2].a[0] == key and loc[:i] == field(f) and loc[i + 1:i + 2] == ("second",):
                            hit = loc[:i + 2]
                if hit:
                    break
            if hit:
                out.append(Walk(g, key, f, hit))
    return out


def one_walk(ctx, g, f):
    ws = walks(ctx, g, f)
    ctx.item("%s: all features of %s are visited, once each" % (g.sid, f))
    if len(ws) != 1:
        undecided(ctx, g, "loop over %s" % f)
        return None
    w = ws[0]
    stops(ctx, w)
    if w.it is not None:
        steps(ctx, w)
    return w


def stops(ctx, w):
    g = w.g
    for n in within(w.node, ("return", "break", "goto")):
        ctx.violation("%s:stop" % g.sid, where(g.fn, n), "the loop over %s may stop before the last feature" % w.field)


def sub(e):
    yield e
    for v in e.values():
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                yield from sub(x)


def steps(ctx, w):
    """the iterator goes to the next feature at each iteration"""
    g = w.g
    v = w.S.read(w.loc)
    ctx.item("%s: the iterator over %s goes to the next feature, never through an erased one" % (g.sid, w.field))
    try:
        cs = cases(g, w.S, [v])
    except Shape as e:
        return undecided(ctx, g, "iterator over %s (%s)" % (w.field, e))
    inc = w.node.get("inc") or {}
    while inc.get("k") in ("cast", "paren"):
        inc = inc.get("e") or {}
    adv = 1 if inc.get("k") in ("call", "un") and ("operator++" in str(inc.get("qn")) or "++" in str(inc.get("op"))) and any(
        x.get("k") == "ref" and (w.loc or [()])[0][0] == "v" and x.get("d") in w.loc[0] for x in sub(inc)) else 0
    if w.node.get("inc") and not adv:
        return undecided(ctx, g, "step over %s" % w.field)
    for ch, (e,), pcs in cs:
        if e is w.it and not adv:
            ctx.violation("%s:step" % g.sid, where(g.fn, w.node), "a feature of %s may be visited again and again: the iterator stays" % w.field)
            continue
        n, x = adv, e
        while x.op == "mod" and "operator++" in str(x.a[0]):
            n, x = n + 1, x.a[1]
        if x is w.it:
            if n != 1:
                ctx.violation("%s:step" % g.sid, where(g.fn, w.node), "features of %s are skipped" % w.field)
        elif (x.op == "call" and short(x) == "erase" or x.op == "erase") and any(a is w.it for a in x.a):
            if n:
                ctx.violation("%s:step" % g.sid, where(g.fn, w.node), "the feature after an erased one is skipped")
        else:
            undecided(ctx, g, "iterator over %s: %s" % (w.field, show(e)[:60]))
    # use after erase
    ers = [c for c in w.calls("erase") if c.objloc == field(w.field) and any(a is w.it for a in c.args)]
    moved = [x for x in g.w if x.loc == w.loc and w.key in x.open]
    for c in ers:
        after = [x for x in moved if x.seq > c.seq and x.S.pc is not None and c.S.pc is not None and
                 any(p >= q for p in x.S.pc for q in c.S.pc)]
        before = [x for x in moved if x.seq < c.seq and any(p <= q for p in x.S.pc or () for q in c.S.pc or ())]
        if not before and (not after or not any("erase" in show(x.val)[:6] or short(x.val) == "erase" for x in after)):
            if any(x.val.op == "mod" for x in after) or not after:
                ctx.violation("%s:erased" % g.sid, where(g.fn, c.node), "the iterator of an erased feature is used again")


def reader(g, w=None, extra=None):
    """predicates over the answers of the features"""
    def hook(t):
        if extra is not None:
            f = extra(t)
            if f is not None:
                return f
        if t.op == "call":
            n = short(t)
            if n in NAMES:
                return opaque(NAMES[n])
        if t.op == "==" and any(isinstance(a, T) and (a.op == "end" or short(a) in ("end", "cend")) for a in t.a):
            return opaque("past the last")
        if t.op == "init" and t.a[0] == field("_isActivated"):
            return opaque("activated")
        return None
    return pred(g, hook=hook)


SIDE = And(opaque("valid covariance"), opaque("activated"), Not(opaque("past the last")))


def free(l):
    """conditions on the state of the features are not decided by the specified ones"""
    return "nullptr" not in show_leaf(l) and "mapWriter" not in show_leaf(l)


def exactly(ctx, g, es, key, what, want, P, mode="iff", side=SIDE, node=None, loose=False):
    got = Or(*[P.pc(live(g, e)) for e in es]) if es else False
    side = And(side, Not(opaque("past the last")))      # the step of a loop, for an element there is
    return decide(ctx, g, es[0].node if es else node, key, what, got, want, mode=mode, side=side,
                  free=() if loose else (free,))


def asked_after(ctx, w, names, updates):
    """the answers that decide are given after the update"""
    g = w.g
    us = w.of(*updates)
    ctx.item("%s: what becomes of a feature is decided after its update" % g.sid)
    if not us:
        return
    last = max(u.seq for u in us)
    for c in w.of(*names):
        if c.seq < last:
            ctx.violation("%s:early" % g.sid, where(g.fn, c.node), "%s is asked before the feature is updated" % c.name)


def inner_loop(w):
    """the loop over the matches of the feature: (key, element term)"""
    g = w.g
    for c in w.calls("update_with_match"):
        for t in [x for a in c.args if a is not None for x in closure(g.E, [a])]:
            if t.op == "init":
                e = elem_of(t.a[0], w)
                if e is not None:
                    return e[0], t
    return None


def elem_of(loc, w):
    for i, x in enumerate(loc):
        if isinstance(x, tuple) and len(x) > 2 and x[0] == "i" and x[1] == "elem" and isinstance(x[2], T) and x[2].op == "iter" \
                and loc[:i] == w.prefix + ("_matchIndexes",):
            return x[2].a[0], loc[:i + 1]
    return None


def updated(ctx, w, P):
    """each match of the feature updates it; returns the predicates in which the success is named"""
    g = w.g
    il = inner_loop(w)
    us = w.of("update_with_match")
    ctx.item("%s: the feature is updated with each of its matches" % g.sid)
    if il is None or len(us) != 1:
        if not w.calls("update_with_match"):
            ctx.violation("%s:update" % g.sid, where(g.fn, w.node), "features are not updated with their matches")
        else:
            undecided(ctx, g, "update with the matches")
        return None
    key, ix = il
    u = us[0]
    for n in within(g.ends[key][2], ("return", "break", "goto")) if key in g.ends else ():
        ctx.violation("%s:matches" % g.sid, where(g.fn, n), "a match of the feature may be left out")
    at_ = u.args[0] if u.args else None
    okay = at_ is not None and any(x.op == "call" and short(x) == "at" and x.a[1] is g.par(2) and x.a[-1] is ix for x in
                                   closure(g.E, [at_])) or \
        at_ is not None and any(x.op == "init" and x.a[0][:1] == (root(g, 2),) and len(x.a[0]) > 1 and x.a[0][1][-1] is ix
                                for x in closure(g.E, [at_]) if len(x.a[0]) > 1 and isinstance(x.a[0][1], tuple))
    if not okay:
        undecided(ctx, g, "detection given to the update")
    for i, (j, what) in enumerate(((1, "covariance of the pose"), (0, "pose"))):
        ctx.item("%s: the update is given the %s" % (g.sid, what))
        if len(u.args) > 1 + i and u.args[1 + i] is not g.par(j):
            ctx.violation("%s:args" % g.sid, where(g.fn, u.node), "the update is not given the %s" % what)
    exactly(ctx, g, [u], "update", "each match updates the feature", True, P, loose=True)
    # success of one update
    ok = opaque("update succeeded")
    named = {}
    if key in g.ends:
        S = g.ends[key][0]
        Q = reader(g, w)
        for loc, (h, first, nxt) in carried(g, key).items():
            if first is not FALSE and first is not TRUE or len(loc) != 1:
                continue
            Q.names[h] = opaque("before")
            Q.memo.clear()
            f = Q.term(S.read(loc))
            if not any(l == ok for l in leaves(f)) and f != opaque("before") and f is not True:
                del Q.names[h]
                continue
            if f == opaque("before"):
                continue
            if first is FALSE:
                r = decide(ctx, g, g.ends[key][2], "success", "an update that succeeds makes the whole succeed, a failed one changes nothing",
                           f, Or(opaque("before"), ok), side=SIDE)
                if r is not None:
                    named[h] = opaque("one update succeeded")
            else:
                ctx.item("%s: the success starts as a failure" % g.sid)
                ctx.violation("%s:success" % g.sid, where(g.fn, g.ends[key][2]), "a feature without any match counts as updated")
                named[h] = opaque("one update succeeded")
            del Q.names[h]
    R = reader(g, w)
    R.names.update(named)
    return R, key, ix, u


def used(ctx, w, R, key, ix, u, exact):
    g = w.g
    ret = {x.val for x in g.exits if x.val is not None}
    es = [c for c in g.c if c.name in ("emplace", "insert") and key in c.open and c.objloc is not None and len(c.objloc) == 1 and
          [a for a in c.args if a is not None][:1] == [ix] and len([a for a in c.args if a is not None]) == 1]
    ctx.item("%s: the detections used are reported" % g.sid)
    if not es:
        if any(t.op == "mod" for t in closure(g.E, ret)):
            return undecided(ctx, g, "detections used")
        ctx.violation("%s:used" % g.sid, where(g.fn, w.node), "the detections used for an update are not reported")
        return
    exactly(ctx, g, es, "used", "a detection is reported as used %s the update succeeded" % ("exactly when" if exact else "when"),
            opaque("update succeeded"), R, mode="iff" if exact else "covers")


def erased(ctx, w, R, want, what):
    g = w.g
    es = [c for c in w.calls("erase") if c.objloc == field(w.field)]
    exactly(ctx, g, es, "erase", what, want, R, node=w.node)
    return es


def local(ctx):
    for f in pick(ctx, FM + "update_local_map"):
        g = effects(ctx, None, fn=f, deny=ASK)
        w = one_walk(ctx, g, "_localMap")
        if w is None:
            continue
        r = updated(ctx, w, reader(g, w))
        if r is None:
            continue
        R, key, ix, u = r
        used(ctx, w, R, key, ix, u, True)
        matched(ctx, w, R)
        asked_after(ctx, w, ("is_lost",), ("update_matched", "update_unmatched"))
        lost = opaque("lost")
        es = erased(ctx, w, R, lost, "a local feature is removed exactly when it is lost")
        ws = w.of("write_to_file")
        exactly(ctx, g, ws, "write", "a lost feature is written to the map file exactly when it does not move",
                And(lost, Not(opaque("moving"))), R, node=w.node)
        written(ctx, w, ws, es)


def written(ctx, w, ws, es):
    g = w.g
    ctx.item("%s: a feature is written before it is removed" % g.sid)
    for c in ws:
        if any(e.seq < c.seq and any(p >= q for p in c.S.pc or () for q in e.S.pc or ()) for e in es):
            ctx.violation("%s:order" % g.sid, where(g.fn, c.node), "the feature is written after it was removed")


def matched(ctx, w, R):
    g = w.g
    one = opaque("one update succeeded")
    exactly(ctx, g, w.of("update_matched"), "matched", "a feature counts as matched exactly when one update succeeded", one, R,
            node=w.node)
    exactly(ctx, g, w.of("update_unmatched"), "unmatched", "a feature counts as unmatched exactly when no update succeeded",
            Not(one), R, node=w.node)


def staged(ctx):
    for f in pick(ctx, FM + "update_staged_map"):
        g = effects(ctx, None, fn=f, deny=ASK)
        if one_walk(ctx, g, "_stagedMap") is None:
            continue
        g = effects(ctx, None, fn=f, deny=ASK + CTORS)
        ws = walks(ctx, g, "_stagedMap")
        if len(ws) != 1:
            undecided(ctx, g, "loop over _stagedMap")
            continue
        w = ws[0]
        r = updated(ctx, w, reader(g, w))
        if r is None:
            continue
        R, key, ix, u = r
        used(ctx, w, R, key, ix, u, False)
        matched(ctx, w, R)
        asked_after(ctx, w, ("should_add_to_local_map", "should_remove_from_staged"), ("update_matched", "update_unmatched"))
        ready, bad = opaque("ready for the map"), opaque("rejected")
        es = erased(ctx, w, R, Or(ready, bad), "a staged feature is removed exactly when it is promoted or rejected")
        em = [c for c in w.calls("emplace", "insert", "insert_or_assign", "try_emplace") if c.objloc == field("_localMap")]
        exactly(ctx, g, em, "promote", "a staged feature is promoted to the local map exactly when it is ready", ready, R,
                node=w.node)
        for c in em:
            stored(ctx, w, c)
            for e in es:
                if e.seq < c.seq and any(p >= q for p in c.S.pc or () for q in e.S.pc or ()):
                    ctx.violation("%s:order" % g.sid, where(g.fn, c.node), "the feature is promoted after it was removed")


def stored(ctx, w, c):
    """the feature is stored under its own id"""
    g = w.g
    ctx.item("%s: the promoted feature is stored under its own id, and is made of the staged one" % g.sid)
    a = [x for x in c.args if x is not None]
    if len(a) != 2:
        return undecided(ctx, g, "how the promoted feature is stored")
    if not is_part(a[0], w, "_id"):
        if a[0].op == "init" or cval(a[0]) is not None or not any(is_part(t, w, "_id") or is_part(t, w) or t.op == "call" for t in subterms(a[0]) if not (t.op == "call" and short(t) in ("size", "count"))):
            ctx.violation("%s:id" % g.sid, where(g.fn, c.node), "the promoted feature is stored under %s" % show(a[0])[:60])
        else:
            undecided(ctx, g, "id of the promoted feature: " + show(a[0])[:60])
    if not any(is_part(t, w) for t in closure(g.E, [a[1]])):
        undecided(ctx, g, "the promoted feature")


def is_part(t, w, name=None):
    """t is (the member of) the current feature, at any time"""
    if name is not None:
        if t.op == "fld" and t.a[1] == name:
            return is_part(t.a[0], w)
        if t.op == "init" and t.a[0] == w.prefix + (name,):
            return True
        if t.op == "phi":
            return t.a[1] == w.prefix + (name,)
        if t.op == "init" and t.a[0] == (("deref", w.it), "first"):
            return True
        return False
    if t.op == "init":
        return t.a[0] == w.prefix
    if t.op == "phi":
        return t.a[1] == w.prefix
    if t.op in ("agg", "mod"):
        return any(isinstance(x, T) and is_part(x, w) for x in t.a) or t.op == "agg" and t.a[0] == w.prefix
    return False


def untracked(ctx):
    for f in pick(ctx, FM + "update_local_map_with_no_tracking"):
        g = effects(ctx, None, fn=f, deny=ASK)
        w = one_walk(ctx, g, "_localMap")
        if w is None:
            continue
        R = reader(g, w)
        exactly(ctx, g, w.of("update_unmatched"), "unmatched", "without tracking each feature counts as unmatched", True, R, node=w.node)
        asked_after(ctx, w, ("is_lost",), ("update_unmatched",))
        es = erased(ctx, w, R, opaque("lost"), "a local feature is removed exactly when it is lost")
        ws = w.of("write_to_file")
        exactly(ctx, g, ws, "write", "a lost feature that does not move is written to the map file",
                And(opaque("lost"), Not(opaque("moving"))), R, mode="covers", node=w.node)
        exactly(ctx, g, ws, "writelost", "only lost features are written to the map file", opaque("lost"), R, mode="implies", node=w.node)
        written(ctx, w, ws, es)
    for f in pick(ctx, FM + "update_staged_map_with_no_tracking"):
        g = effects(ctx, None, fn=f, deny=ASK)
        w = one_walk(ctx, g, "_stagedMap")
        if w is None:
            continue
        R = reader(g, w)
        exactly(ctx, g, w.of("update_unmatched"), "unmatched", "without tracking each feature counts as unmatched", True, R, node=w.node)
        asked_after(ctx, w, ("should_remove_from_staged",), ("update_unmatched",))
        erased(ctx, w, R, opaque("rejected"), "a staged feature is removed exactly when it is rejected")


def upgrades(ctx):
    for fn, m in (("get_upgraded_map_features", "_localMap"), ("get_upgraded_staged_features", "_stagedMap")):
        for f in pick(ctx, FM + fn):
            g = effects(ctx, None, fn=f, deny=ASK)
            w = one_walk(ctx, g, m)
            if w is None:
                continue

            def null(t):
                if t.op == "==" and any(isinstance(a, T) and a.op in ("null", "c") and ("null" in show(a)) for a in t.a):
                    return opaque("null")
                return None
            R = reader(g, w, null)
            want = And(opaque("upgraded"), Not(opaque("null")))
            erased(ctx, w, R, want, "a feature leaves the map exactly when its upgrade is handed out")
            ps = [c for c in w.calls("push_back", "emplace_back")]
            exactly(ctx, g, ps, "hand", "an upgraded feature is handed out exactly when it leaves the map", want, R, node=w.node)
            cu = w.of("compute_upgraded")
            ctx.item("%s: what is handed out is the upgrade of the feature" % g.sid)
            if len(cu) == 1 and len(ps) == 1 and len(cu[0].arglocs) > 1 and cu[0].arglocs[1] is not None:
                v = ps[0].args[0] if ps[0].args else None
                if v is None or not any(t.op == "out" and "compute_upgraded" in str(t.a[0]) for t in closure(g.E, [v])):
                    undecided(ctx, g, "what is handed out")
    for f in pick(ctx, FM + "add_upgraded_features"):
        g = effects(ctx, None, fn=f, deny=ASK + ("add_upgraded_to_local_map",))
        cs = calls(g, "add_upgraded_to_local_map")
        ctx.item("%s: upgraded features of the type of the map are added" % g.sid)
        if len(cs) != 1:
            undecided(ctx, g, "how upgraded features are added")
            continue

        def typ(t):
            if t.op == "==" and any(isinstance(a, T) and short(a) == "get_type" for a in t.a):
                return opaque("of the type of the map")
            return None
        exactly(ctx, g, cs, "add", "an upgraded feature is added exactly when it is of the type of the map",
                opaque("of the type of the map"), reader(g, None, typ), side=True)


def from_search(g, x, t):
    """the term comes from what the search found"""
    st, seen = [t], set()
    while st:
        for u in closure(g.E, [st.pop()]):
            if short(u) == "find_matches":
                return True
            if u in seen:
                continue
            seen.add(u)
            for loc in u.a:
                if isinstance(loc, tuple):
                    st += [y for part in loc if isinstance(part, tuple) for y in part if isinstance(y, T) and y not in seen]
                    if u.op == "begin":
                        try:
                            st.append(x.S.read(loc))
                        except Exception:
                            pass
    return False


def matching(ctx):
    for f in pick(ctx, FM + "get_matches", lambda f: len(f.params) == 5):
        g = effects(ctx, None, fn=f, deny=ASK)

        def found(t):
            if t.op == "call" and short(t) == "empty" and any(short(u) == "find_matches" for u in subterms(t)):
                return Not(opaque("found"))
            if t.op == "==" and any(short(u) == "find_matches" for u in subterms(t)) and any(cval(a) == 0 for a in t.a if isinstance(a, T)):
                return Not(opaque("found"))
            if t.op == "<" and cval(t.a[0]) == 0 and any(short(u) == "find_matches" for u in subterms(t)):
                return opaque("found")
            return None
        side = And(opaque("activated"), Not(opaque("past the last")))
        seen = And(Not(opaque("moving")), opaque("visible"))
        ends = []
        for m in ("_localMap", "_stagedMap"):
            w = one_walk(ctx, g, m)
            if w is None:
                continue
            ends.append(w)
            R = reader(g, w, found)
            um = [c for c in w.of("mark_unmatched") if not [a for a in c.args if a is not None]]
            fm = w.of("find_matches")
            exactly(ctx, g, um, "reset", "the earlier matches of a feature of %s are forgotten" % m, True, R, side=side, node=w.node)
            exactly(ctx, g, fm, "search", "matches are searched for the features of %s that are visible and do not move" % m, seen, R,
                    side=side, node=w.node)
            mm = w.of("mark_matched")
            exactly(ctx, g, mm, "mark", "a feature of %s is matched exactly when matches were found" % m,
                    And(seen, opaque("found")), R, side=side, node=w.node)
            ctx.item("%s: the matches are forgotten before new ones are searched (%s)" % (g.sid, m))
            if um and fm and min(c.seq for c in um) > min(c.seq for c in fm + mm):
                ctx.violation("%s:reset" % g.sid, where(g.fn, um[0].node), "the matches found are forgotten again")
            for c in mm:
                ctx.item("%s: the matches kept are those found (%s)" % (g.sid, m))
                a = c.args[0] if c.args else None
                if a is None or not any(short(u) == "find_matches" for u in closure(g.E, [a])):
                    ctx.violation("%s:kept" % g.sid, where(g.fn, c.node), "the matches kept are not those found")
            for c in fm:
                ctx.item("%s: the search gets the detections, the pose and the flags (%s)" % (g.sid, m))
                a = c.args
                if len(a) < 6:
                    undecided(ctx, g, "arguments of the search")
                    continue
                if a[0] is not g.par(0) or a[1] is not g.par(1) or a[5] is not g.par(2):
                    ctx.violation("%s:search" % g.sid, where(g.fn, c.node), "the search is not given the detections, pose and mode of the call")
                fl = c.arglocs[2] if len(c.arglocs) > 2 else None
                if fl is not None and fl != field("_isDetectedFeatureMatched"):
                    ctx.violation("%s:flags" % g.sid, where(g.fn, c.node), "the search is not given the detections already matched")
            fw, wh, odd = writes(g, field("_isDetectedFeatureMatched"))
            fw = [(x, i) for x, i in fw if w.key in x.open]
            ctx.item("%s: the detections matched by %s are flagged" % (g.sid, m))
            if not fw:
                if not odd:
                    ctx.violation("%s:flag" % g.sid, where(g.fn, w.node), "the detections matched are not flagged")
                else:
                    undecided(ctx, g, "flags of the detections")
                continue
            for x, i in fw:
                if x.val is not TRUE:
                    ctx.violation("%s:flag" % g.sid, where(g.fn, x.node), "the detections matched are flagged as not matched")
                if not from_search(g, x, i[0]):
                    ctx.violation("%s:flag" % g.sid, where(g.fn, x.node), "the detections flagged are not those found")
            exactly(ctx, g, [x for x, _ in fw], "flagged", "the detections found for a feature of %s are flagged" % m,
                    And(seen, opaque("found")), R, mode="covers", side=side, node=w.node)
        fw, wh, odd = writes(g, field("_isDetectedFeatureMatched"))
        ctx.item("%s: flags and matches start empty" % g.sid)
        first = min([c.seq for w in ends for c in w.of("find_matches")] or [1 << 30])
        inits = [x for x in wh if x.seq < first and short(x.val) == "Zero"] or \
            [x for x in g.c if x.seq < first and x.name in ("setZero", "setConstant", "fill", "resize") and x.objloc == field("_isDetectedFeatureMatched")]
        if not inits:
            ctx.violation("%s:start" % g.sid, where(g.fn), "the flags of the earlier detections are kept")
        else:
            exactly(ctx, g, inits, "start", "the flags are set to false for each search", True, reader(g), mode="covers", side=side)
        cl = [c for c in g.c if c.seq < first and c.objloc == (root(g, 4),) and c.name in ("clear",)]
        if not cl and not any(x.loc == (root(g, 4),) and x.seq < first for x in g.w):
            ctx.violation("%s:start" % g.sid, where(g.fn), "the matches of an earlier search are kept")
        ctx.item("%s: features of the local map are matched before staged ones" % g.sid)
        if len(ends) == 2:
            a = [c.seq for c in ends[0].of("find_matches")]
            b = [c.seq for c in ends[1].of("find_matches")]
            if a and b and min(b) < max(a):
                ctx.violation("%s:first" % g.sid, where(g.fn), "staged features are matched before those of the local map")


def unmatching(ctx):
    for f in pick(ctx, FM + "mark_feature_with_id_as_unmatched"):
        g = effects(ctx, None, fn=f, deny=ASK)

        def there(t):
            if t.op == "==" and any(isinstance(a, T) and (a.op == "end" or short(a) in ("end", "cend")) for a in t.a):
                for m, n in (("_localMap", "in the local map"), ("_stagedMap", "in the staged map")):
                    if m in show(t):
                        return Not(opaque(n))
            if t.op == "call" and short(t) in ("contains",):
                for m, n in (("_localMap", "in the local map"), ("_stagedMap", "in the staged map")):
                    if m in show(t):
                        return opaque(n)
            return None
        R = reader(g, None, there)
        R.names[g.this("_isActivated")] = opaque("activated")
        inl, ins = opaque("in the local map"), opaque("in the staged map")
        fid = sym("id")
        g.b[g.par(0)] = fid
        natural(g, fid)
        R.A = alg(g)
        some = And(opaque("activated"), Not(eq(fid, const(0))))
        decide(ctx, g, None, "found", "the answer says whether the feature is known", R.true(), And(some, Or(inl, ins)),
               integral=frozenset(g.ints))
        fs, wh, odd = writes(g, field("_isDetectedFeatureMatched"))
        mu = [c for c in calls(g, "mark_unmatched")]
        ctx.item("%s: the match and the flag are removed" % g.sid)
        if not mu or not fs:
            if not mu and not any(c.name == "erase" for c in g.c):
                ctx.violation("%s:unmatch" % g.sid, where(f), "the match is not removed from the feature")
            elif not fs and not odd:
                ctx.violation("%s:unflag" % g.sid, where(f), "the detection stays flagged as matched")
            continue
        want = And(some, Or(inl, ins), opaque("matched"))
        for c in mu:
            a = [x for x in c.args if x is not None]
            ctx.item("%s: only the match given is removed" % g.sid)
            if a and a[0] is not g.par(1):
                ctx.violation("%s:which" % g.sid, where(f, c.node), "another match than the one given is removed")
        for x, i in fs:
            ctx.item("%s: the flag of the detection given is removed" % g.sid)
            if x.val is not FALSE or i[0] is not g.par(1):
                ctx.violation("%s:flag" % g.sid, where(f, x.node), "the flag of the detection given is not removed")
        decide(ctx, g, mu[0].node, "unmatch", "the match is removed from a matched feature", Or(*[R.pc(live(g, c)) for c in mu]), want,
               mode="covers", integral=frozenset(g.ints), free=(free,))
        decide(ctx, g, fs[0][0].node, "unflag", "the flag of the detection is removed with the match",
               Or(*[R.pc(live(g, x)) for x, _ in fs]), want, integral=frozenset(g.ints), free=(free,))
    for f in pick(ctx, FM + "mark_outliers_as_unmatched"):
        g = effects(ctx, None, fn=f, deny=ASK + ("mark_feature_with_id_as_unmatched",))
        cs = calls(g, "mark_feature_with_id_as_unmatched")
        ctx.item("%s: each outlier of the type of the map is removed" % g.sid)
        if len(cs) != 1:
            undecided(ctx, g, "how outliers are removed")
            continue
        c = cs[0]
        a = [x for x in c.args if x is not None]
        for i, m in enumerate(("_idInMap", "_detectedFeatureId")):
            ctx.item("%s: the outlier is removed by its %s" % (g.sid, m))
            if len(a) > i and m not in show(a[i]):
                if a[i].op in ("init", "fld"):
                    ctx.violation("%s:ids" % g.sid, where(f, c.node), "the outlier is not removed by its %s" % m)
                else:
                    undecided(ctx, g, "ids of the outlier")

        def typ(t):
            if t.op == "==" and any(isinstance(x, T) and short(x) == "get_feature_type" for x in t.a):
                return opaque("of the type of the map")
            return None
        exactly(ctx, g, cs, "each", "an outlier is removed exactly when it is of the type of the map", opaque("of the type of the map"),
                reader(g, None, typ), side=True)


def adding(ctx):
    for f in pick(ctx, FM + "add_features_to_staged_map"):
        g = effects(ctx, None, fn=f, deny=ASK + ("add_detected_feature_to_staged_map", "get_detected_feature", "size"))
        cs = calls(g, "add_detected_feature_to_staged_map")
        ctx.item("%s: detections are added" % g.sid)
        if len(cs) != 1:
            undecided(ctx, g, "how detections are added")
            continue
        c = cs[0]

        def unused(t):
            if t.op in ("<", "==") and any(isinstance(a, T) and short(a) == "size" and
                                           any(short(u) == "get_detected_feature" for u in subterms(a)) for a in t.a):
                f = opaque("a detection")
                return f if t.op == "<" and short(t.a[1]) == "size" else Not(f)
            if t.op == "call" and short(t) == "contains":
                return opaque("used") if any(u is g.par(3) for u in subterms(t)) else None
            if t.op == "==" and any(isinstance(a, T) and short(a) == "count" for a in t.a):
                return Not(opaque("used")) if any(cval(a) == 0 for a in t.a if isinstance(a, T)) else None
            return None
        R = reader(g, None, unused)
        exactly(ctx, g, cs, "unused", "a detection becomes a staged feature exactly when it was not used", Not(opaque("used")), R,
                side=And(opaque("valid covariance"), opaque("activated"), opaque("a detection")))
        a = [x for x in c.args]
        ctx.item("%s: pose and covariance are handed on" % g.sid)
        if len(a) == 3 and (a[0] is not g.par(0) or a[1] is not g.par(1)):
            ctx.violation("%s:pose" % g.sid, where(f, c.node), "the pose or its covariance is not handed on")
        # index asked, index added
        ks = [k for k in c.open if k in g.ends]
        at_ = next((u for u in closure(g.E, [a[2]]) if short(u) == "at"), None) if len(a) == 3 and a[2] is not None else None
        ix = at_.a[-1] if at_ is not None else None
        if ix is None and len(a) == 3 and a[2] is not None and a[2].op in ("fld", "init"):
            last = a[2].a[1] if a[2].op == "fld" else a[2].a[0][-1]
            ix = last[-1] if isinstance(last, tuple) and last[0] == "i" else None
        ctx.item("%s: the detection added is the one that was asked for" % g.sid)
        if ix is None or not ks:
            undecided(ctx, g, "index of the detection")
            continue
        for x in calls(g, "contains") + calls(g, "count"):
            y = [b for b in x.args if b is not None]
            if y and y[-1] is not ix:
                ctx.violation("%s:index" % g.sid, where(f, x.node), "another detection is asked for than the one added")
        n = sym("detections")
        t = ix
        if t.op == "phi":
            S = g.ends[t.a[0]][0] if t.a[0] in g.ends else None
            for q in S.facts if S is not None else ():
                if q.op in ("<", "==", "<=") and t in q.a:
                    for b in q.a:
                        if isinstance(b, T) and short(b) == "size" and any(short(u) == "get_detected_feature" for u in subterms(b)):
                            g.b[b] = n
            span(ctx, g, t, const(0), n, "detection")
    for f in pick(ctx, FM + "add_detected_feature_to_staged_map"):
        g = effects(ctx, None, fn=f, deny=ASK + CTORS)
        em = [c for c in g.c if c.name in ("emplace", "insert", "try_emplace", "insert_or_assign") and c.objloc == field("_stagedMap")]
        exactly(ctx, g, em, "stage", "a detection is staged exactly when it can be added to the map", opaque("can be added"),
                reader(g), side=True)
        ctor = [c for c in g.c if c.name == "ctor" and len([a for a in c.args if a is not None]) == 3 and c.args[-1] is g.par(2)]
        ctx.item("%s: the staged feature is made of the detection and the pose it was seen from" % g.sid)
        if not ctor:
            undecided(ctx, g, "how the staged feature is made")
        elif ctor[0].args[0] is not g.par(0) or ctor[0].args[1] is not g.par(1):
            ctx.violation("%s:pose" % g.sid, where(f, ctor[0].node), "the staged feature is not made with the pose of the detection")
        for c in em:
            a = [x for x in c.args if x is not None]
            ctx.item("%s: the staged feature is stored under its own id" % g.sid)
            if len(a) != 2 or "_id" not in show(a[0]):
                undecided(ctx, g, "id of the staged feature")
    for f in pick(ctx, FM + "add_to_local_map"):
        g = effects(ctx, None, fn=f, deny=ASK)
        em = [c for c in g.c if c.name in ("emplace", "insert", "try_emplace", "insert_or_assign") and c.objloc == field("_localMap")]

        def has(t):
            if t.op == "call" and short(t) == "contains" and "_localMap" in show(t):
                return opaque("id already known")
            return None
        exactly(ctx, g, em, "new", "a feature is added to the local map exactly when its id is new", Not(opaque("id already known")),
                reader(g, None, has), side=True, node=None)
        for c in em:
            a = [x for x in c.args if x is not None]
            ctx.item("%s: it is stored under its own id" % g.sid)
            if len(a) != 2 or a[0] is not g.par(0, "_id"):
                if len(a) == 2 and a[0].op == "init":
                    ctx.violation("%s:id" % g.sid, where(f, c.node), "the feature is stored under %s" % show(a[0])[:60])
                else:
                    undecided(ctx, g, "id under which the feature is stored")


def identity(ctx):
    f = pick1(ctx, "MapIdAllocator::get_new_id")
    g = effects(ctx, None, fn=f)
    for x in g.exits:
        ws = [w for w in g.w if w.loc and isinstance(w.loc[0], tuple) and w.loc[0][0] == "g"]
        ctx.item("%s: a new id is remembered" % g.sid)
        if not ws:
            ctx.violation("%s:kept" % g.sid, where(f, x.node), "ids are not remembered: features share them")
            continue
        loc = ws[-1].loc
        old = mk("init", loc)
        n = sym("last id")
        g.b[old] = n
        natural(g, n)
        A = alg(g)
        kept_ = x.S.read(loc)
        try:
            v, k = A.sc(x.val), A.sc(kept_)
        except Shape as e:
            undecided(ctx, g, "new id (%s)" % e)
            continue
        if not equal(v, k):
            ctx.violation("%s:kept" % g.sid, where(f, x.node), "the id given is not the one remembered")
        P = pred(g)
        side = ge(n, const(0))
        decide(ctx, g, x.node, "new", "a new id is greater than all ids given before, and never 0",
               And(gt(v, n), gt(v, const(0))), True, mode="covers", side=side, integral=frozenset(g.ints))


def counters(ctx):
    for name in ("update_matched", "update_unmatched"):
        for f in pick(ctx, "IMapFeature::" + name):
            g = effects(ctx, None, fn=f)
            fail, succ = sym("failures"), sym("successes")
            g.b[g.this("_failedTrackingCount")] = fail
            g.b[g.this("_successivMatchedCount")] = succ
            natural(g, fail, succ)
            for x in g.exits:
                for m, c in (("_failedTrackingCount", fail), ("_successivMatchedCount", succ)):
                    for t in closure(g.E, [self_read(x, (m,))]):
                        # the hook of the features for a missed match does not count
                        if t.op == "fld" and t.a[1] == m and t.a[0].op == "mod" and "update_no_match" in str(t.a[0].a[0]) and \
                                not any("(%s)" % m in show(u)[:400] for u in t.a[0].a[1:2] if u.op == "agg"):
                            g.b[t] = c
                fv, sv = self_read(x, ("_failedTrackingCount",)), self_read(x, ("_successivMatchedCount",))
                wf, wsu = (const(0), succ + const(1)) if name == "update_matched" else (fail + const(1), succ - const(1))
                value_is(ctx, g, x.node, "failures", "number of frames without match", fv, wf)
                value_is(ctx, g, x.node, "successes", "number of matches in a row", sv, wsu)
                if name == "update_unmatched":
                    ctx.item("%s: an unmatched feature has no match" % g.sid)
                    v = self_read(x, ("_matchIndexes",))
                    if v.op == "fld" and v.a[0].op == "mod" and "update_no_match" in str(v.a[0].a[0]) and "_matchIndexes" not in show(v.a[0].a[1]):
                        v = g.this("_matchIndexes")
                    if v is g.this("_matchIndexes"):
                        ctx.violation("%s:matches" % g.sid, where(f, x.node), "an unmatched feature keeps its matches")
    for c in ("MapPoint", "MapPoint2D", "MapPlane"):
        g = effects(ctx, LM + c + "::update_no_match")
        ctx.item("%s: a missed match is not counted twice" % g.sid)
        for x in g.w:
            if x.loc[:1] == (THIS,) and x.loc[1:] in (("_failedTrackingCount",), ("_successivMatchedCount",)):
                undecided(ctx, g, "writes " + x.loc[1])
    for f in pick(ctx, "IMapFeature::mark_matched"):
        g = effects(ctx, None, fn=f)
        for x in g.exits:
            ctx.item("%s: the matches are kept" % g.sid)
            v = self_read(x, ("_matchIndexes",))
            if v is not g.par(0):
                base = v
                while base.op == "mod" and base.a[0] not in ("clear", "operator=", "assign", "swap"):
                    base = base.a[1]
                if base is g.this("_matchIndexes") or v.op == "dflt":
                    ctx.violation("%s:matches" % g.sid, where(f, x.node), "the matches given are not kept")
                else:
                    undecided(ctx, g, "matches kept")
    for f in pick(ctx, "IMapFeature::mark_unmatched"):
        g = effects(ctx, None, fn=f)
        for x in g.exits:
            ctx.item("%s: the match is forgotten" % g.sid)
            v = self_read(x, ("_matchIndexes",))
            try:
                vs = [v for _, (v,), _ in cases(g, x.S, [v])]
            except Shape:
                undecided(ctx, g, "matches forgotten")
                continue
            if all(v is g.this("_matchIndexes") for v in vs):
                ctx.violation("%s:matches" % g.sid, where(f, x.node), "matches are kept")
            for v in vs if f.params else ():
                if v.op == "mod" and v.a[0] != "erase":
                    ctx.violation("%s:matches" % g.sid, where(f, x.node), "other matches than the one given are forgotten")
                elif v.op == "mod" and v.a[-1] is not g.par(0):
                    if len(vs) == 1 and v.a[-1].op == "init":
                        ctx.violation("%s:matches" % g.sid, where(f, x.node), "another match than the one given is forgotten")
                    else:
                        undecided(ctx, g, "which match is forgotten")
    for f in pick(ctx, "IMapFeature::is_matched"):
        g = effects(ctx, None, fn=f)

        def has(t):
            if t.op == "call" and short(t) == "empty" and any(u is g.this("_matchIndexes") for u in subterms(t)):
                return Not(opaque("has matches"))
            if t.op in ("<", "==") and any(isinstance(a, T) and short(a) == "size" for a in t.a) and any(cval(a) == 0 for a in t.a if isinstance(a, T)):
                return opaque("has matches") if t.op == "<" else Not(opaque("has matches"))
            return None
        decide(ctx, g, None, "matched", "a feature is matched exactly when it has matches", pred(g, hook=has).true(), opaque("has matches"))


def param(ctx, name):
    for q, gl in ctx.prog.globals.items():
        if q.endswith("::" + name) and "cv" in gl:
            return Fraction(gl["cv"]).limit_denominator(10 ** 9)
    return None


ANSWERS = (
    ("LocalMapPoint::is_lost", "_failedTrackingCount", lambda c, K: gt(c, K("pointUnmatchedCountToLoose")),
     "a point is lost exactly when it was missed more often than allowed"),
    ("LocalMapPoint2D::is_lost", "_failedTrackingCount", lambda c, K: gt(c, K("pointUnmatchedCountToLoose")),
     "a point is lost exactly when it was missed more often than allowed"),
    ("LocalMapPlane::is_lost", "_failedTrackingCount", lambda c, K: ge(c, K("planeUnmatchedCountToLoose")),
     "a plane is lost exactly when it was missed as often as allowed"),
    ("StagedMapPoint::should_remove_from_staged", "_successivMatchedCount", lambda c, K: le(c, const(0)),
     "a staged point is rejected exactly when misses outweigh its matches"),
    ("StagedMapPoint2D::should_remove_from_staged", "_successivMatchedCount", lambda c, K: le(c, const(0)),
     "a staged point is rejected exactly when misses outweigh its matches"),
    ("StagedMapPoint::should_add_to_local_map", "_successivMatchedCount",
     lambda c, K: gt(c, K("pointMinimumConfidenceForMap") * K("pointStagedAgeConfidence")),
     "a staged point is promoted exactly when its confidence is high enough"),
    ("StagedMapPoint2D::should_add_to_local_map", "_successivMatchedCount",
     lambda c, K: gt(c, K("pointMinimumConfidenceForMap") * K("pointStagedAgeConfidence")),
     "a staged point is promoted exactly when its confidence is high enough"),
    ("StagedMapPlane::should_remove_from_staged", "_failedTrackingCount", lambda c, K: ge(c, const(2)),
     "a staged plane is rejected exactly when it was missed twice in a row"),
    ("StagedMapPlane::should_add_to_local_map", "_successivMatchedCount", lambda c, K: ge(c, const(4)),
     "a staged plane is promoted exactly when it was matched four times more than it was missed"),
)


def answers(ctx):
    for name, m, want, what in ANSWERS:
        g = effects(ctx, LM + name)
        c = sym("count")
        g.b[g.this(m)] = c
        natural(g, c)

        def K(n):
            v = param(ctx, n)
            if v is None:
                raise Shape("no constant " + n)
            return const(v)
        try:
            decide(ctx, g, None, "answer", what, pred(g).true(), want(c, K), integral=frozenset(g.ints))
        except Shape as e:
            undecided(ctx, g, "%s (%s)" % (what, e))


def emptied(ctx):
    for f in pick(ctx, FM + "reset"):
        g = effects(ctx, None, fn=f)
        R = reader(g)
        for m in ("_localMap", "_stagedMap"):
            cs = [c for c in g.c if c.objloc == field(m) and c.name == "clear"] or [w for w in g.w if w.loc == field(m)]
            exactly(ctx, g, cs, "reset", "a reset empties %s" % m, opaque("activated"), R, side=True)
    for f in pick(ctx, FM + "destroy"):
        g = effects(ctx, None, fn=f, deny=ASK)
        w = one_walk(ctx, g, "_localMap")
        if w is None:
            continue
        exactly(ctx, g, w.of("write_to_file"), "destroy", "the features of the local map that do not move are written at the end",
                And(opaque("activated"), Not(opaque("moving"))), reader(g, w), mode="covers", side=True, node=w.node)
