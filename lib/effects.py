"""What a function writes and calls: every effect with its place, value and exact path condition at the fixpoint of the loops
around it, and the ranges of these loops."""
from formula import *
from preds import *
from loops import *


THIS = ("o", "this")


class W:
    """one write"""

    def __init__(self, loc, val, S, F, node):
        self.loc, self.val, self.S, self.F, self.node = loc, val, S, F, node


class C:
    """one call"""

    def __init__(self, name, callee, objloc, objval, args, arglocs, S, F, node):
        self.full, self.callee, self.objloc, self.objval = str(name), callee, objloc, objval
        self.name = self.full.split("<")[0].split("::")[-1]
        self.args, self.arglocs, self.S, self.F, self.node = args, arglocs, S, F, node


def pointer(E, t, depth=0):
    """the value of a pointer, whatever was written through it"""
    while t.op in ("agg", "upd") and isinstance(t.a[0], T):
        t = t.a[0]
    if t.op == "phi" and t in E.cond and depth < 4:
        vs = {pointer(E, v, depth + 1) for v, _, _ in E.cond[t]} - {t, mk("old", t)}
        vs = {v for v in vs if v.op != "old"}
        if len(vs) == 1:
            return vs.pop()
    return t


class Effects(LoopHooks):
    def __init__(self):
        super().__init__()
        self.w, self.c, self.brk = [], [], []
        self.n = 0

    def tick(self, e, E):
        e.seq = self.n
        e.open = frozenset(E.openl)
        self.n += 1
        return e

    def write(self, E, loc, val, S, F, node):
        # through a pointer to a row of an image
        v = pointer(E, S.read(loc[:1])) if len(loc) > 1 and isinstance(loc[0], tuple) and loc[0] != THIS else None
        if v is not None and v.op == "init" and isinstance(v.a[0][-1], tuple) and v.a[0][-1][:2] == ("i", "ptr"):
            loc = v.a[0] + loc[1:]
        self.w.append(self.tick(W(loc, val, S.copy(), F, node), E))

    def loopbreak(self, E, S, F, node):
        self.brk.append((S.copy(), F, node))

    def call(self, E, name, callee, objloc, objval, args, arglocs, S, F, node):
        self.c.append(self.tick(C(name, callee, objloc, objval, args, arglocs, S.copy(), F, node), E))


def denying(*names, loops=True, raises=()):
    """loops: also short loops of constant length are treated by induction"""
    class P(FPolicy):
        deny = DENY + names
        unroll = not loops
        raising = tuple(raises)
    return P()


def effects(ctx, suffix, pred=None, deny=(), fn=None, loops=True, distinct=False, raises=()):
    h = Effects()
    g = Fx(ctx, fn or pick1(ctx, suffix, pred), policy=denying(*deny, loops=loops, raises=raises), hooks=h, distinct=distinct)
    g.ends, g.h = h.ends, h
    g.w, g.c = h.w, h.c
    g.ints = set()
    return g


def alg(g):
    A = g.alg()
    A.ints = set(g.ints)
    return A


def atoms(r):
    return {a for p in (r.n, r.d) for m in p for a, _ in m}


def natural(g, *rs):
    for r in rs:
        g.ints |= atoms(r)


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


def root(g, i):
    p = g.fn.params[i]
    return ("o", "param", p["n"] or str(p["d"]))


def at(loc):
    """(path of the table, indices) of an element written or read; a row pointer and a column make two indices"""
    if len(loc) >= 2 and isinstance(loc[-1], tuple) and loc[-1][0] == "i" and loc[-1][1] in ("at", "[]"):
        ix = list(loc[-1][2:])
        if any(not isinstance(x, T) for x in ix):
            return None
        base = loc[:-1]
        if len(ix) == 1 and len(base) >= 2 and isinstance(base[-1], tuple) and base[-1][0] == "i" and \
                base[-1][1] in ("ptr", "row", "[]", "at") and len(base[-1]) == 3 and isinstance(base[-1][2], T):
            ix = [base[-1][2]] + ix
            base = base[:-1]
        return base, ix
    return None


def elem(t):
    """(path, indices) of the element that the term reads, as it was at entry or at the head of a loop"""
    if t.op == "init":
        return at(t.a[0])
    if t.op == "phi" and isinstance(t.a[1], tuple):
        return at(t.a[1])
    if t.op == "fld" and t.a[0].op in ("phi", "fld") and isinstance(t.a[1], tuple):
        b = t.a[0]
        path = (t.a[1],)
        while b.op == "fld":
            path = (b.a[1],) + path
            b = b.a[0]
        if b.op == "phi" and isinstance(b.a[1], tuple):
            return at(tuple(b.a[1]) + path)
    return None


def reads(g, t, base, *ix):
    """t is the element of the table at these indices (normal forms)"""
    e = elem(t)
    if e is None or e[0] != base or len(e[1]) != len(ix):
        return False
    A = alg(g)
    try:
        return all(equal(A.sc(x), y) for x, y in zip(e[1], ix))
    except Shape:
        return False


def span(ctx, g, t, lo, hi, what, s=None):
    """obligation: the index t takes every value from lo to hi - 1 in order, and the loop has no other way out. Returns the
    symbol of the index, None if undecided."""
    s = s if s is not None else sym(what)
    ctx.item("%s: every %s is visited" % (g.sid, what))
    if t.op != "phi" or t.a[0] not in g.ends:
        undecided(ctx, g, "%s index %s" % (what, show(t)[:60]))
        return None
    key = t.a[0]
    g.b[t] = s
    S, F, node = g.ends[key]
    car = carried(g, key).get(t.a[1])
    A = alg(g)
    try:
        if car is None:
            raise Shape("not carried")
        first, nxt = A.sc(car[1]), A.sc(car[2])
        u = upper(g, A, key, t)
    except Shape as e:
        undecided(ctx, g, "loop over the %ss (%s)" % (what, e))
        return None
    if unknown_atoms(first) - unknown_atoms(lo) or u is None or unknown_atoms(u) - unknown_atoms(hi):
        undecided(ctx, g, "range of the loop over the %ss" % what)
        return None
    k = "%s:%s" % (g.sid, what)
    if not equal(first, lo):
        ctx.violation(k, where(g.fn, node), "the %ss visited start at %r, not %r" % (what, first, lo))
    if not equal(nxt, s + const(1)):
        if unknown_atoms(nxt):
            undecided(ctx, g, "step of the loop over the %ss" % what)
            return None
        ctx.violation(k, where(g.fn, node), "the %ss visited do not follow each other" % what)
    if not equal(u, hi):
        ctx.violation(k, where(g.fn, node), "the %ss visited end at %r, not %r" % (what, u, hi))
    for S2, F2, n in g.h.brk:
        if n is node and F2.uid == F.uid and not any(
                f.op in ("<", "<=") and t in f.a and not pol or f.op == "==" and t in f.a and pol for f, pol in S2.facts.items()):
            ctx.violation(k, where(g.fn, node), "the loop over the %ss may stop before the last one" % what)
    g.spans = getattr(g, "spans", {})
    g.spans[key] = (t, s, lo, hi)
    return s


def counter(g, t, depth=0):
    """normal form of a value carried by loops whose ranges are known, that advances by the same amount at each iteration: in
    terms of the indices of the loops; None if it is not one"""
    key = t.a[0] if t.op == "phi" else None
    sp = getattr(g, "spans", {}).get(key)
    if sp is None or depth > 4:
        return None
    if t is sp[0]:
        return sp[1]
    first, step = advance(g, t, depth)
    return None if first is None else first + step * (sp[1] - sp[2])


def advance(g, t, depth, whole=True):
    """(value before the loop if whole, amount per iteration)"""
    key = t.a[0]
    car = carried(g, key).get(t.a[1])
    if car is None:
        return None, None
    v = sym("carried%d" % depth)
    A = alg(g)
    A.bind[t] = v
    for u in closure(g.E, [car[2]]):        # after an inner loop
        if u.op == "phi" and u is not t and u.a[0] in g.spans and u.a[0] != key and inner(g, u.a[0], key):
            p, s, lo, hi = g.spans[u.a[0]]
            if u is p:
                A.bind[u] = hi
                continue
            c2 = carried(g, u.a[0]).get(u.a[1])
            s2 = advance(g, u, depth + 1, False)[1]
            if s2 is None or c2 is None:
                return None, None
            B = alg(g)
            B.bind[t] = v
            try:
                A.bind[u] = B.sc(c2[1]) + s2 * (hi - lo)
            except Shape:
                return None, None
    B = alg(g)
    for u in closure(g.E, [car[1]]) if whole else ():
        if u.op == "phi" and u.a[0] != key and u not in B.bind:
            x = counter(g, u, depth + 1)
            if x is not None:
                B.bind[u] = x
    try:
        step = A.sc(car[2]) - v
        first = B.sc(car[1]) if whole else None
    except Shape:
        return None, None
    if atoms(step) & atoms(v) or unknown_atoms(step) or whole and unknown_atoms(first):
        return None, None
    return first, step


def inner(g, a, b):
    """the loop a is inside the loop b"""
    return a != b and b in g.h.around.get(a, ())


def value_is(ctx, g, node, key, what, val, *wants):
    """obligation: the value is one of the specified ones"""
    ctx.item("%s: %s" % (g.sid, what))
    try:
        got = alg(g).sc(val)
    except Shape as e:
        undecided(ctx, g, "%s (%s)" % (what, e))
        return None
    if any(equal(got, w) for w in wants):
        return True
    if unknown_atoms(got) - set().union(*[unknown_atoms(w) for w in wants]):
        undecided(ctx, g, "%s: %r" % (what, sorted(map(repr, unknown_atoms(got)))[:2]))
        return None
    ctx.violation("%s:%s" % (g.sid, key), where(g.fn, node), "%s is %r, not %r" % (what, got, wants[0]))
    return False


def pieces(ctx, g, S, node, key, what, val, parts, P=None, nan=False, side=True):
    """obligation: the value is, under each condition, the one that goes with it. parts: [(condition, normal form)]"""
    ctx.item("%s: %s" % (g.sid, what))
    P = P or pred(g)
    try:
        cs = cases(g, S, [val])
    except Shape as e:
        return undecided(ctx, g, "%s (%s)" % (what, e))
    for ch, (e,), pcs in cs:
        try:
            got = alg(g).sc(e)
        except Shape as x:
            undecided(ctx, g, "%s (%s)" % (what, x))
            continue
        wrong = [c for c, w in parts if not equal(got, w)]
        if not wrong:
            continue
        if unknown_atoms(got) - set().union(*[unknown_atoms(w) for _, w in parts]):
            undecided(ctx, g, "%s: %r" % (what, sorted(map(repr, unknown_atoms(got)))[:2]))
            continue
        c = And(P.pc(S.pc), *[P.pc(pc) for pc in pcs])
        decide(ctx, g, node, key, "%s (value %r)" % (what, got), c, Not(Or(*wrong)), mode="implies", nan=nan,
               integral=frozenset(g.ints), side=side)


def pred(g, names=(), hook=None):
    P = Pred(g, names)
    P.A = alg(g)
    P.hook = hook
    return P


def live(g, e):
    """path condition of an effect, without the exit conditions of loops that are over"""
    def over(t, pol):
        for k in t._ls:
            if k in g.ends and k not in e.open and g.ends[k][0].facts.get(t) is (not pol):
                return True
        return False
    if e.S.pc is None:
        return None
    return frozenset(frozenset((t, pol) for t, pol in cube if not over(t, pol)) for cube in e.S.pc)


def when(ctx, g, e, key, what, want, P=None, mode="iff", side=True, nan=False):
    """obligation: the effect e takes place exactly under the condition"""
    P = P or pred(g)
    return decide(ctx, g, e.node, key, what, P.pc(live(g, e)), want, mode=mode, nan=nan, integral=frozenset(g.ints), side=side)


def when_any(ctx, g, es, key, what, want, P=None, mode="iff", side=True, nan=False):
    """obligation: one of the effects takes place exactly under the condition"""
    P = P or pred(g)
    return decide(ctx, g, es[0].node, key, what, Or(*[P.pc(live(g, e)) for e in es]), want, mode=mode, nan=nan,
                  integral=frozenset(g.ints), side=side)


def writes(g, base):
    """writes of elements of a table: [(W, indices)]; whole writes: [W]"""
    el, wh, odd = [], [], []
    for w in g.w:
        if w.loc == base:
            wh.append(w)
        elif w.loc[:len(base)] == base:
            a = at(w.loc)
            if a is not None and a[0] == base:
                el.append((w, a[1]))
            else:
                odd.append(w)
    return el, wh, odd


def calls(g, name, pred=None):
    return [c for c in g.c if c.name == name and (pred is None or pred(c))]


def always(S):
    return S.pc is not None and frozenset() in S.pc


def settled(ctx, g, key, loc, ckey, what, parts, P=None, side=True, nan=False):
    """obligation: at the end of an iteration the element is, under each condition, the value that goes with it (what is
    written on the way does not matter)"""
    S, F, node = g.ends[key]
    v = S.read(loc)
    a = at(loc)
    for u in closure(g.E, [v]):
        e = elem(u)
        if e is not None and a is not None and e[0] == a[0] and e[1] == a[1] and u not in g.b:
            g.b[u] = sym("previous value")
    if P is not None:
        P.A = alg(g)
        P.memo.clear()
    return pieces(ctx, g, S, node, ckey, what, v, parts, P=P, side=side, nan=nan)
