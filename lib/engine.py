"""Forward dataflow analysis over the resolved syntax trees.

The abstract state maps locations (access paths) to value numbers (hash-consed Herbrand terms, with phi terms at joins)
and carries the set of branch facts known to hold (value number of a condition -> polarity). Calls to functions of the
repository are analysed in the calling context (helpers are looked through), everything else is an uninterpreted
function of its arguments. Loops are iterated to a fixpoint; at every join the facts are intersected, so a fact that is
present holds on *every* path. Nothing is executed and no solver is involved."""
import re
import sys
import modset

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "n", "_ls")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.n = op, a, len(_tab)
        ls = None
        for x in a:
            if isinstance(x, T):
                if x._ls:
                    ls = x._ls if ls is None else ls | x._ls
            elif isinstance(x, tuple):
                y = tuple_ls(x)
                if y:
                    ls = y if ls is None else ls | y
        if op in ("phi", "iter"):
            me = frozenset((a[0],))
            ls = me if ls is None else ls | me
        t._ls = ls or frozenset()
        _tab[k] = t
    return t


def tuple_ls(x):
    r = frozenset()
    for y in x:
        if isinstance(y, T):
            if y._ls:
                r = r | y._ls
        elif isinstance(y, tuple):
            r = r | tuple_ls(y)
    return r


def num(v):
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        v = int(v)
    return mk("c", "n", v)


def boolean(v):
    return mk("c", "b", bool(v))


TRUE, FALSE = boolean(True), boolean(False)


def is_const(t):
    return t.op == "c"


def cval(t):
    if t is not None and t.op == "c" and t.a[0] in ("n", "b"):
        return t.a[1]
    return None


SHOWDEPTH = 6


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > SHOWDEPTH:
        return "…"
    if t.op == "c":
        return repr(t.a[1])
    if t.op == "init":
        return showloc(t.a[0])
    if t.op == "phi":
        return "phi<%s>" % showloc(t.a[1])
    if t.op in ("+", "-", "*", "/", "<", "<=", "==", "and", "or") and len(t.a) == 2:
        return "(%s %s %s)" % (show(t.a[0], d + 1), t.op, show(t.a[1], d + 1))
    if t.op == "call":
        return "%s(%s)" % (str(t.a[0]).split("::")[-1], ", ".join(show(x, d + 1) for x in t.a[1:]))
    return "%s(%s)" % (t.op, ", ".join(show(x, d + 1) for x in t.a))


def showloc(l):
    s = ""
    for i, e in enumerate(l):
        if i == 0:
            if isinstance(e, tuple):
                s = str(e[-1]) if e[0] in ("v", "o", "g") else "(%s)" % ",".join(show(x) for x in e)
            else:
                s = str(e)
        elif isinstance(e, tuple):
            s += "[%s]" % ",".join(show(x) for x in e[1:])
        else:
            s += "." + str(e)
    return s


def not_(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "c" and t.a[0] == "b":
        return boolean(not t.a[1])
    return mk("not", t)


def binop(op, a, b):
    ca, cb = cval(a), cval(b)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        if ca is not None and cb is not None:
            return boolean({"<": ca < cb, ">": ca > cb, "<=": ca <= cb, ">=": ca >= cb, "==": ca == cb,
                            "!=": ca != cb}[op])
        if op == ">":
            return mk("<", b, a)
        if op == ">=":
            return mk("<=", b, a)
        if op == "!=":
            return not_(binop("==", a, b))
        if op == "==":
            # comparison with a boolean constant
            for x, y in ((a, b), (b, a)):
                if x.op == "c" and x.a[0] == "b":
                    return y if x.a[1] else not_(y)
            if a.op == "addr" and b.op == "addr":
                x, y = a.a[0][0], b.a[0][0]
                if x != y and any(isinstance(r, tuple) and r[0] in ("v", "t", "tmp") for r in (x, y)):
                    return FALSE        # a local or temporary is no part of another object
            if b < a:
                a, b = b, a
            return mk("==", a, b)
        return mk(op, a, b)
    if op == "&&":
        if ca is False or cb is False:
            return FALSE
        if ca is True:
            return b
        if cb is True:
            return a
        return mk("and", a, b)
    if op == "||":
        if ca is True or cb is True:
            return TRUE
        if ca is False:
            return b
        if cb is False:
            return a
        return mk("or", a, b)
    if ca is not None and cb is not None and not isinstance(ca, bool) and not isinstance(cb, bool):
        try:
            if op == "+":
                return num(ca + cb)
            if op == "-":
                return num(ca - cb)
            if op == "*":
                return num(ca * cb)
            if op == "/" and cb != 0:
                if isinstance(ca, int) and isinstance(cb, int):
                    if ca % cb == 0:
                        return num(ca // cb)
                else:
                    return num(ca / cb)
        except (OverflowError, ValueError):
            pass
    return mk(op, a, b)


INTEGRAL = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
            "signed char", "long long", "unsigned long long", "size_t", "std::size_t", "uint", "Eigen::Index",
            "ptrdiff_t", "std::ptrdiff_t"}


def is_integral(t):
    t = t.replace("const ", "").rstrip("& ").strip()
    return t in INTEGRAL or t.endswith("_t") and "int" in t


def idiv(a, b):
    ca, cb = cval(a), cval(b)
    if isinstance(ca, int) and isinstance(cb, int) and cb:
        q = abs(ca) // abs(cb)
        return num(q if (ca < 0) == (cb < 0) else -q)
    return mk("idiv", a, b)


_sub = {}


def subst(t, m):
    """replace terms according to the dict m (memo per mapping object)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "c" or not x.a:
            r = x
        else:
            na = tuple(go(y) if isinstance(y, (T, tuple)) else y for y in x.a)
            r = x if na == x.a else mk(x.op, *na)
        memo[x] = r
        return r

    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(y for y in x.a if isinstance(y, (T, tuple)))
    return seen


# ------------------------------------------------------------------ state
PC_TRUE = frozenset([frozenset()])
PC_MAX = 96


def pc_or(pcs):
    """disjunction of path conditions, with complementary cubes merged"""
    if any(p is None for p in pcs):
        return None
    if all(p is pcs[0] or p == pcs[0] for p in pcs):
        return pcs[0]
    cs = set().union(*pcs)
    again = True
    while again:
        again = False
        if len(cs) > 4 * PC_MAX:
            return None
        for c in list(cs):
            if c not in cs:
                continue
            for l in c:
                o = (c - {l}) | {(l[0], not l[1])}
                if o in cs:
                    cs.discard(c)
                    cs.discard(o)
                    cs.add(c - {l})
                    again = True
                    break
        for c in list(cs):
            if any(d < c for d in cs):
                cs.discard(c)
    if len(cs) > PC_MAX:
        return None
    return frozenset(cs)


class State:
    __slots__ = ("store", "facts", "dead", "pc")

    def __init__(self):
        self.store = {}   # root -> {path: term}
        self.facts = {}   # term -> bool
        self.dead = False
        self.pc = PC_TRUE  # path condition: set of cubes of (term, bool); None when it became too large

    def copy(self):
        s = State()
        s.store = {r: d.copy() for r, d in self.store.items()}
        s.facts = self.facts.copy()
        s.dead = self.dead
        s.pc = self.pc
        return s

    def become(self, o):
        if o is None:
            self.dead = True
            return
        self.store, self.facts, self.dead, self.pc = o.store, o.facts, o.dead, o.pc

    def cond(self, t, pol):
        """conjoin a branch condition to the path condition"""
        if self.pc is None:
            return
        while t.op == "not":
            t, pol = t.a[0], not pol
        if cval(t) is not None or t.op == "c":
            return
        self.pc = frozenset(c | {(t, pol)} for c in self.pc if (t, not pol) not in c)

    def same(self, o):
        return self.store == o.store and self.facts == o.facts

    # ---- memory
    def read(self, loc):
        root, path = loc[0], loc[1:]
        d = self.store.get(root)
        base = None
        if d:
            n = len(path)
            exact = d.get(path)
            ext = [(k[n:], v) for k, v in d.items() if len(k) > n and k[:n] == path]
            if exact is not None and not ext:
                return exact
            base = exact
            if base is None:
                for i in range(n - 1, -1, -1):
                    v = d.get(path[:i])
                    if v is not None:
                        base = v
                        for e in path[i:]:
                            base = project(base, e)
                        break
            if base is None:
                base = mk("init", loc)
            if ext:
                # keep only extensions that are not implied by the base
                ext = [(k, v) for k, v in ext if proj_path(base, k) is not v]
                if ext:
                    ext.sort(key=lambda kv: repr_path(kv[0]))
                    return mk("agg", base, tuple(ext))
            return base
        return mk("init", loc)

    def write(self, loc, val):
        root, path = loc[0], loc[1:]
        d = self.store.setdefault(root, {})
        # first index element
        ii = next((i for i, e in enumerate(path) if isinstance(e, tuple)), None)
        if ii is not None:
            bpath = path[:ii]
            old = self.read((root,) + bpath)
            keep = {}
            for k, v in d.items():
                if len(k) > ii and k[:ii] == bpath and k != path:
                    e = k[ii]
                    if distinct_elem(e, path[ii]) or (e == path[ii] and k[:len(path)] != path and
                                                      path[:len(k)] != k):
                        keep[k] = v
                elif k != path:
                    keep[k] = v
            d.clear()
            d.update(keep)
            d[bpath] = mk("upd", strip_agg_idx(old), path[ii:], val)
            self._put(d, path, val)
            return
        n = len(path)
        for k in [k for k in d if len(k) >= n and k[:n] == path]:
            del d[k]
        self._put(d, path, val)

    def _put(self, d, path, val):
        if val.op == "agg":
            d[path] = val.a[0]
            for k, v in val.a[1]:
                d[path + k] = v
        else:
            d[path] = val

    def drop_root(self, root):
        self.store.pop(root, None)


def strip_agg_idx(t):
    return t


def repr_path(p):
    return tuple(str(e) if not isinstance(e, tuple) else "[" + ",".join(
        str(x.n) if isinstance(x, T) else str(x) for x in e) for e in p)


def distinct_elem(a, b):
    """two path elements that certainly denote different cells"""
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if not isinstance(a, tuple):
        return a != b
    if a[1] != b[1] or len(a) != len(b):
        return False
    for x, y in zip(a[2:], b[2:]):
        if isinstance(x, T) and isinstance(y, T) and is_const(x) and is_const(y) and x is not y:
            return True
    return False


def project(v, e):
    if v.op == "agg":
        rest = []
        for k, x in v.a[1]:
            if k == (e,):
                # whole element known (maybe with deeper overrides)
                base = x
                deeper = tuple((k2[1:], x2) for k2, x2 in v.a[1] if len(k2) > 1 and k2[0] == e)
                return mk("agg", base, deeper) if deeper else base
            if k and k[0] == e:
                rest.append((k[1:], x))
        b = project(v.a[0], e)
        return mk("agg", b, tuple(rest)) if rest else b
    if v.op == "init":
        return mk("init", v.a[0] + (e,))
    if v.op == "upd" and v.a[1][0] == e and len(v.a[1]) == 1:
        return v.a[2]
    if v.op == "upd" and distinct_elem(v.a[1][0], e):
        return project(v.a[0], e)
    if v.op == "vec" and isinstance(e, tuple) and e[1] == "at" and len(e) == 3:
        i = cval(e[2])
        if isinstance(i, int) and 0 <= i < len(v.a) and len(v.a) > 1:
            return v.a[i]
    if v.op == "pair" and e in ("first", "second"):
        return v.a[0 if e == "first" else 1]
    return mk("fld", v, e)


def proj_path(v, path):
    for e in path:
        v = project(v, e)
    return v


# ------------------------------------------------------------------ frames
class Frame:
    __slots__ = ("fn", "this", "vars", "uid", "returns", "throws", "brk", "cont", "parent", "node", "depth", "ctx",
                 "retloc", "lamframe")

    def chain(self):
        out = []
        f = self
        while f is not None:
            out.append("%s (%s:%s)" % (f.fn.short, f.fn.file, f.fn.l))
            f = f.parent
        return " <- ".join(out)


# names of external accessors that designate a part of their object
ACCESS = {"operator()", "operator[]", "at", "x", "y", "z", "w", "block", "diagonal", "col", "row", "head", "tail",
          "front", "back", "coeffRef", "coeff", "segment", "topLeftCorner", "topRightCorner", "bottomRightCorner",
          "bottomLeftCorner", "topRows", "leftCols", "vec", "value", "ptr", "real", "imag", "transpose_ref", "outer",
          "inners", "middleRows", "middleCols", "translation", "linear", "colwise"}
XYZ = {"x": 0, "y": 1, "z": 2, "w": 3}
IDENT_FNS = {"move", "forward", "as_const", "ref", "cref", "addressof"}
VALUE_PASS = {"eval", "finished", "matrix", "derived", "noalias", "const_cast_derived"}
PURE_CONTAINER = {"begin", "end", "cbegin", "cend", "size", "empty", "data", "find", "rbegin", "rend", "get",
                  "c_str"}
ITER_OPS = {"begin", "cbegin"}


SHAPED = {"Zero", "Identity", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "UnitW"}
_mshape = re.compile(r"Eigen::Matrix<(?:double|float|int), (-?\d+), (-?\d+)")


# forward their arguments to a constructor
FORWARDS = ("emplace_back", "emplace", "emplace_front", "try_emplace", "emplace_hint", "make_pair", "make_tuple", "make_unique",
            "make_shared")


class Policy:
    """what to look through; override in checks"""
    max_depth = 12
    deny = ()            # qualified-name suffixes never inlined (kept as primitives)
    opaque_throws = False
    raising = ()         # functions kept as primitives that may throw, as a condition of its own
    unroll = True

    def inline(self, fn, frame):
        return True


class Hooks:
    def call(self, E, name, callee, objloc, objval, args, arglocs, S, F, node):
        pass

    def write(self, E, loc, val, S, F, node):
        pass

    def ret(self, E, val, S, F, node):
        pass

    def throw(self, E, S, F, node):
        pass

    def read(self, E, loc, S, F, node):
        pass

    def access(self, E, objloc, objval, elem, S, F, node):
        pass

    def expr(self, E, e, t, S, F):
        pass

    def loopend(self, E, S, F, node):
        pass

    def loopbreak(self, E, S, F, node):
        pass


class Exit:
    __slots__ = ("S", "val", "node", "loc")

    def __init__(self, S, val, node, loc=None):
        self.S, self.val, self.node, self.loc = S, val, node, loc


def cut(node):
    """whether a loop may end otherwise than by its condition"""
    todo = [node.get("b") or node.get("body")]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += x
        elif isinstance(x, dict):
            if x.get("k") in ("break", "return", "goto", "throw"):
                return True
            if x.get("k") != "lambda":
                todo += [v for v in x.values() if isinstance(v, (dict, list))]
    return False


class Engine:
    def __init__(self, prog, policy=None, hooks=None):
        self.prog = prog
        self.policy = policy or Policy()
        self.hooks = hooks or Hooks()
        self.cond = {}        # phi term -> [(value, facts)]
        self.lams = {}
        self.cvouts = set()
        self.lamrets = {}
        self.final = True
        self.openl = []       # loops whose body is being analysed
        self.quiet = 0        # >0 while iterating a loop to its fixpoint: hooks are silent
        self.inlined = set()
        self.opaque = {}
        self.steps = 0
        self.uids = {}
        self._over = None
        self._denyc = {}

    # -------------------------------------------------------------- helpers
    def overridden(self, fid):
        if self._over is None:
            self._over = {}
            for f in self.prog.fns.values():
                for o in f.raw.get("over", []):
                    self._over.setdefault(o, []).append(f)
        return self._over.get(fid, [])

    def denied(self, fn):
        r = self._denyc.get(fn.id)
        if r is None:
            from facts import match_qn
            r = self._denyc[fn.id] = any(match_qn(fn.qn, d) for d in self.policy.deny)
        return r

    def uid(self, ctx):
        u = self.uids.get(ctx)
        if u is None:
            u = self.uids[ctx] = len(self.uids)
        return u

    # -------------------------------------------------------------- joins
    def join(self, states, key, vals=None):
        """states: list of State; vals: list of dict name->term (extra values joined alike). Returns (State, vals)"""
        idx = [i for i, s in enumerate(states) if s is not None and not s.dead]
        if not idx:
            return None, None
        if len(idx) == 1:
            s = states[idx[0]]
            return s, (vals[idx[0]] if vals else None)
        sts = [states[i] for i in idx]
        R = State()
        maps = [dict() for _ in sts]
        first = sts[0]
        roots = set()
        for s in sts:
            roots.update(s.store)
        for r in roots:
            ds = [s.store.get(r) for s in sts]
            if all(d == ds[0] for d in ds[1:]):
                if ds[0]:
                    R.store[r] = ds[0].copy()
                continue
            paths = set()
            for d in ds:
                if d:
                    paths.update(d)
            nd = {}
            # if a path is missing in one state its value there is a projection of a prefix
            for p in sorted(paths, key=lambda p: (len(p), repr_path(p))):
                vs = []
                for s, d in zip(sts, ds):
                    v = d.get(p) if d else None
                    if v is None:
                        v = s.read((r,) + p)
                    vs.append(v)
                if all(v is vs[0] for v in vs[1:]):
                    nd[p] = vs[0]
                    continue
                ph = mk("phi", key, (r,) + p)
                nd[p] = ph
                for m, v in zip(maps, vs):
                    m.setdefault(v, ph)
                self.note_cond(ph, vs, sts)
            # drop entries implied by a prefix
            R.store[r] = nd
        outv = None
        if vals:
            outv = {}
            for name in vals[idx[0]]:
                vs = [vals[i].get(name) for i in idx]
                if any(v is None for v in vs):
                    outv[name] = None
                    continue
                if all(v is vs[0] for v in vs[1:]):
                    outv[name] = vs[0]
                else:
                    ph = mk("phi", key, ("ret", name))
                    outv[name] = ph
                    for m, v in zip(maps, vs):
                        m.setdefault(v, ph)
                    self.note_cond(ph, vs, sts)
        # facts
        common = dict(sts[0].facts)
        for s in sts[1:]:
            common = {k: v for k, v in common.items() if s.facts.get(k) is v}
        if any(maps):
            cand = None
            for m, s in zip(maps, sts):
                mm = {k: v for k, v in m.items() if k.op != "c"}
                d = {}
                for k, v in s.facts.items():
                    if k in common:
                        continue
                    nk = subst(k, mm) if mm else k
                    d[nk] = v
                cand = d if cand is None else {k: v for k, v in cand.items() if d.get(k) is v}
            common.update(cand)
            # facts that hold because the value is a known boolean on some branches are kept in self.cond
        R.facts = common
        R.pc = pc_or([s.pc for s in sts])
        return R, outv

    def note_cond(self, ph, vs, sts):
        self.cond[ph] = [(v, s.facts, s.pc) for v, s in zip(vs, sts)]

    # -------------------------------------------------------------- facts
    def assume(self, S, t, pol, depth=0):
        """adds t==pol to S (in place); returns False when that is contradictory"""
        while t.op == "not":
            t, pol = t.a[0], not pol
        c = cval(t)
        if c is not None:
            return bool(c) == pol
        if t.op == "c":
            return True
        if t.op == "and":
            if pol:
                return self.assume(S, t.a[0], True, depth) and self.assume(S, t.a[1], True, depth)
            if S.facts.get(t.a[0]) is True:
                if not self.assume(S, t.a[1], False, depth):
                    return False
        elif t.op == "or":
            if not pol:
                return self.assume(S, t.a[0], False, depth) and self.assume(S, t.a[1], False, depth)
            if S.facts.get(t.a[0]) is False:
                if not self.assume(S, t.a[1], True, depth):
                    return False
        f = S.facts.get(t)
        if f is not None and f is not pol:
            return False
        S.facts[t] = pol
        if t.op == "phi" and depth < 4 and t in self.cond:
            cand = None
            ncase = 0
            for v, fs, _ in self.cond[t]:
                cv = cval(v)
                if cv is not None and bool(cv) != pol:
                    continue
                tmp = State()
                tmp.facts = dict(fs)
                if cv is None and v is not t:
                    if not self.assume(tmp, v, pol, depth + 1):
                        continue
                ncase += 1
                cand = dict(tmp.facts) if cand is None else {k: x for k, x in cand.items() if tmp.facts.get(k) is x}
            if ncase == 0:
                return False
            if cand:
                for k, x in cand.items():
                    if k._ls and t.a[0] in k._ls and k is not t:
                        pass
                    if S.facts.get(k, x) is not x:
                        continue
                    S.facts.setdefault(k, x)
        return True

    def holds(self, S, t):
        """True / False / None"""
        pol = True
        while t.op == "not":
            t, pol = t.a[0], not pol
        c = cval(t)
        if c is not None:
            return bool(c) == pol
        f = S.facts.get(t)
        if f is None:
            if t.op == "and":
                a, b = self.holds(S, t.a[0]), self.holds(S, t.a[1])
                f = True if a and b else (False if a is False or b is False else None)
            elif t.op == "or":
                a, b = self.holds(S, t.a[0]), self.holds(S, t.a[1])
                f = True if a or b else (False if a is False and b is False else None)
        return None if f is None else f == pol

    # -------------------------------------------------------------- entry
    def frame(self, fn, this, parent, node, ctx):
        F = Frame()
        F.fn, F.this, F.vars, F.parent, F.node = fn, this, {}, parent, node
        F.ctx = ctx
        F.uid = self.uid(ctx)
        F.returns, F.throws, F.brk, F.cont = [], [], [], []
        F.depth = parent.depth + 1 if parent else 0
        F.retloc = fn.ret.endswith("&")
        F.lamframe = None
        return F

    def run(self, fn, S=None, this=("o", "this")):
        """analyse fn as a root. Parameters are symbolic; returns (exits, throws)"""
        S = S or State()
        F = self.frame(fn, (this,) if fn.cls and not fn.raw.get("stat") else None, None, None, ("root", fn.id))
        for p in fn.params:
            F.vars[p["d"]] = (("o", "param", p["n"] or str(p["d"])),)
        self.body(fn, S, F)
        return F.returns, F.throws

    def body(self, fn, S, F):
        if fn.kind == "ctor":
            self.ctor_inits(fn, S, F)
        if not S.dead:
            S = self.ex(fn.body, S, F)
        else:
            S = None
        if S is not None and not S.dead:
            F.returns.append(Exit(S, None, None))
        if not self.quiet:
            for e in F.returns:
                self.hooks.ret(self, e.val, e.S, F, e.node)

    def ctor_inits(self, fn, S, F):
        for i in fn.inits:
            if S.dead:
                return
            e = i.get("e")
            if "fld" in i:
                loc = F.this + (i["fld"],)
                if e is None:
                    continue
                self.init_loc(loc, e, S, F, i.get("t", ""), node=i)
            else:
                # base or delegating
                self.init_loc(F.this, e, S, F, i.get("base", ""), node=i, base=True)

    # -------------------------------------------------------------- statements
    def ex(self, s, S, F):
        """returns the state after s, or None"""
        if s is None or S is None or S.dead:
            return S if S is not None and not S.dead else None
        self.steps += 1
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            return S
        r = m(s, S, F)
        return None if r is None or r.dead else r

    def s_block(self, s, S, F):
        for c in s["a"]:
            S = self.ex(c, S, F)
            if S is None:
                return None
        return S

    def s_expr(self, s, S, F):
        self.ev(s["e"], S, F)
        return S

    def s_null(self, s, S, F):
        return S

    def s_otherstmt(self, s, S, F):
        return S

    def s_decl(self, s, S, F):
        for v in s["a"]:
            self.decl(v, S, F)
            if S.dead:
                return None
        return S

    def varloc(self, d, n, F):
        return (("v", F.uid, d, n),)

    def decl(self, v, S, F):
        d = v["d"]
        init = v.get("init")
        if "binds" in v:
            # structured binding
            if v.get("ref"):
                loc = self.lv(init, S, F) if init else None
                if loc is None:
                    loc = self.varloc(d, "sb", F)
                    S.write(loc, self.ev(init, S, F) if init else mk("undef", d))
            else:
                loc = self.varloc(d, "sb", F)
                self.init_loc(loc, init, S, F, v["t"], node=v)
            names = ["first", "second"]
            is_pair = "std::pair<" in v["t"]
            for i, b in enumerate(v["binds"]):
                el = b.get("fld") or (names[i] if is_pair and i < 2 else ("i", "get", num(i)))
                F.vars[b["d"]] = loc + (el,)
            return
        if v.get("ref") and init is not None:
            loc = self.lv(init, S, F)
            if S.dead:
                return
            if loc is not None:
                F.vars[d] = loc
                return
            loc = self.varloc(d, v["n"], F)
            F.vars[d] = loc
            self.init_loc(loc, init, S, F, v["t"], node=v)
            return
        loc = self.varloc(d, v["n"], F)
        F.vars[d] = loc
        if "cv" in v and v.get("cexpr"):
            S.write(loc, num(v["cv"]))
            return
        if v.get("static") and not v.get("const") and modset.written(self.prog, F.fn, d):
            # keeps the value of the execution before: the initialiser is that of the first one only
            if init is not None and init["k"] != "ctor":
                self.ev(init, S, F)
            return
        if init is None:
            S.write(loc, mk("undef", loc))
            return
        self.init_loc(loc, init, S, F, v["t"], node=v)

    def init_loc(self, loc, e, S, F, ty, node=None, base=False):
        """construct the value of expression e in place"""
        if e is None:
            return
        if e["k"] == "ctor":
            val = self.construct(loc, e, S, F, base=base)
        else:
            val = self.ev(e, S, F)
            if S.dead:
                return
            if val is not None:
                S.write(loc, val)
        if not self.quiet and not S.dead:
            self.hooks.write(self, loc, S.read(loc), S, F, node or e)

    def s_if(self, s, S, F):
        if s.get("init"):
            S = self.ex(s["init"], S, F)
            if S is None:
                return None
        if s.get("cv"):
            self.decl(s["cv"], S, F)
        if "cval" in s:
            if s["cval"]:
                return self.ex(s["th"], S, F)
            return self.ex(s.get("el"), S, F) if s.get("el") else S
        St, Sf = self.branch(s["c"], S, F)
        a = self.ex(s["th"], St, F) if St else None
        b = (self.ex(s["el"], Sf, F) if s.get("el") else Sf) if Sf else None
        r, _ = self.join([a, b], ("if", F.uid, id(s)))
        return r

    def s_return(self, s, S, F):
        val = loc = None
        e = s.get("e")
        if e is not None:
            if F.retloc:
                loc = self.lv(e, S, F)
                if loc is not None and not S.dead:
                    val = S.read(loc)
            if val is None and not S.dead:
                if e["k"] == "call" and F.fn.ret == "bool" and self.can_split(e, S, F):
                    for x in self.split_call(e, S, F):
                        F.returns.append(Exit(x.S, x.val, s))
                    return None
                val = self.ev(e, S, F)
        if not S.dead:
            F.returns.append(Exit(S, val, s, loc))
        return None

    def s_break(self, s, S, F):
        if F.brk:
            F.brk[-1].append(S)
        return None

    def s_continue(self, s, S, F):
        if F.cont:
            F.cont[-1].append(S)
        return None

    # loops
    def loop(self, key, S, F, head, body, step, node):
        """head(S)->(St,Sf); body(S)->S; step(S)->S"""
        if node.get("c") is not None and self.unroll and self.policy.unroll:
            u = self.unrolled(S, F, head, body, step, node)
            if u is not False:
                return u
        self.openl.append(key)
        try:
            return self.loop_fix(key, S, F, head, body, step, node)
        finally:
            self.openl.pop()

    def loop_fix(self, key, S, F, head, body, step, node):
        entry = self.stale(S, key)
        cur = entry
        self.quiet += 1
        saved = (len(F.returns), len(F.throws))
        n = 0
        while True:
            n += 1
            outs = self.loop_once(cur.copy(), F, head, body, step)
            back = outs[1]
            del F.returns[saved[0]:]
            del F.throws[saved[1]:]
            if back is None:
                break
            back = self.stale(back, key)
            nxt, _ = self.join([entry.copy(), back], key)
            # facts about the loop's own symbols: only what both sides establish
            nxt.facts = {k: v for k, v in nxt.facts.items() if not has_old(k, key)}
            nxt.pc = entry.pc
            if nxt.same(cur):
                break
            cur = nxt
            if n > 14:
                # give up: forget the facts gathered since entry
                nxt.facts = {k: v for k, v in nxt.facts.items() if entry.facts.get(k) is v and key not in k._ls}
                cur = nxt
                break
        self.quiet -= 1
        exits, _ = self.loop_once(cur.copy(), F, head, body, step, node)
        if len(exits) == 1 and cur.pc is not None and node.get("c") is not None and not cut(node):
            # left only when its condition is false: each loop that ends goes on here, under no further condition
            exits[0].pc = cur.pc
        r, _ = self.join(exits, ("lx",) + key)
        return r

    UNROLL = 24

    def unrolled(self, S, F, head, body, step, node):
        """a loop whose condition is decided by constants at every iteration is followed iteration by iteration"""
        self.quiet += 1
        t = F.returns, F.throws
        F.returns, F.throws = list(t[0]), list(t[1])
        St, Sf = head(S.copy())
        F.returns, F.throws = t
        self.quiet -= 1
        if St is None or Sf is not None or cval(self.ev_quiet(node["c"], S, F)) is None or \
                node["c"].get("k") == "bool":
            return False
        uid, ctx = F.uid, F.ctx
        try:
            for trial in (True, False):
                if trial:
                    self.quiet += 1
                    F.returns, F.throws = list(t[0]), list(t[1])
                cur, exits = S.copy(), []
                try:
                    for k in range(self.UNROLL + 2):
                        F.ctx = ctx + ("it", id(node), k)
                        F.uid = self.uid(F.ctx)
                        St, Sf = head(cur)
                        if St is not None and Sf is not None or k > self.UNROLL:
                            return False
                        if Sf is not None:
                            exits.append(Sf)
                        if St is None:
                            break
                        brk, cont = [], []
                        F.brk.append(brk)
                        F.cont.append(cont)
                        b = body(St)
                        F.brk.pop()
                        F.cont.pop()
                        exits += brk
                        cur, _ = self.join([b] + cont, ("lc", F.uid, id(node)))
                        if cur is None or cur.dead:
                            break
                        if not self.quiet:
                            self.hooks.loopend(self, cur, F, node)
                        if step is not None:
                            cur = step(cur)
                        if cur is None or cur.dead:
                            break
                finally:
                    if trial:
                        self.quiet -= 1
                        F.returns, F.throws = t
        finally:
            F.uid, F.ctx = uid, ctx
        r, _ = self.join(exits, ("ux", uid, id(node)))
        return r

    def ev_quiet(self, e, S, F):
        self.quiet += 1
        try:
            return self.ev(e, S.copy(), F)
        finally:
            self.quiet -= 1

    unroll = True
    openl = ()

    def loop_once(self, S, F, head, body, step, node=None):
        St, Sf = head(S)
        brk, cont = [], []
        F.brk.append(brk)
        F.cont.append(cont)
        b = body(St) if St is not None else None
        F.brk.pop()
        F.cont.pop()
        back, _ = self.join([b] + cont, ("lc", F.uid, id(body) if node is None else id(node)))
        if node is not None and not self.quiet:
            for x in brk:
                self.hooks.loopbreak(self, x, F, node)
            if back is not None:
                self.hooks.loopend(self, back, F, node)
        if back is not None and step is not None:
            back = step(back)
            if back is not None and back.dead:
                back = None
        return [x for x in ([Sf] + brk) if x is not None], back

    def stale(self, S, key):
        """rename the loop's own symbols of an earlier iteration"""
        S = S.copy()
        for r, d in S.store.items():
            for p, v in list(d.items()):
                if key in v._ls:
                    d[p] = oldterm(v, key)
            bad = [p for p in d if key in tuple_ls(p)]
            for p in bad:
                del d[p]
        nf = {}
        for k, v in S.facts.items():
            if key in k._ls:
                k = oldterm(k, key)
            nf[k] = v
        S.facts = nf
        if any(isinstance(r, tuple) and key in tuple_ls(r) for r in S.store):
            S.store = {r: d for r, d in S.store.items() if not (isinstance(r, tuple) and key in tuple_ls(r))}
        return S

    def s_while(self, s, S, F):
        key = ("loop", F.uid, id(s))

        def head(S):
            if s.get("cv"):
                self.decl(s["cv"], S, F)
            return self.branch(s["c"], S, F)

        return self.loop(key, S, F, head, lambda S: self.ex(s["b"], S, F), None, s)

    def s_do(self, s, S, F):
        # body once, then while
        key = ("loop", F.uid, id(s))
        brk, cont = [], []
        F.brk.append(brk)
        F.cont.append(cont)
        b = self.ex(s["b"], S, F)
        F.brk.pop()
        F.cont.pop()
        b, _ = self.join([b] + cont, ("do", F.uid, id(s)))
        r = None
        if b is not None:
            r = self.loop(key, b, F, lambda S: self.branch(s["c"], S, F), lambda S: self.ex(s["b"], S, F), None, s)
        r, _ = self.join([r] + brk, ("dx", F.uid, id(s)))
        return r

    def s_for(self, s, S, F):
        key = ("loop", F.uid, id(s))
        if s.get("init"):
            S = self.ex(s["init"], S, F)
            if S is None:
                return None

        def head(S):
            if s.get("c"):
                return self.branch(s["c"], S, F)
            return S, None

        def step(S):
            if s.get("inc"):
                self.ev(s["inc"], S, F)
            return S

        return self.loop(key, S, F, head, lambda S: self.ex(s["b"], S, F), step, s)

    def s_rfor(self, s, S, F):
        key = ("loop", F.uid, id(s))
        if s.get("init"):
            S = self.ex(s["init"], S, F)
            if S is None:
                return None
        rl = self.lv(s["r"], S, F)
        if S.dead:
            return None
        if rl is None:
            rl = (("v", F.uid, id(s), "range"),)
            S.write(rl, self.ev(s["r"], S, F))
        v = s["v"]
        it = mk("iter", key, 0)
        el = rl + (("i", "elem", it),)

        def head(S):
            return S.copy(), S

        def body(S):
            if "binds" in v:
                is_pair = "std::pair<" in v["t"]
                for i, b in enumerate(v["binds"]):
                    F.vars[b["d"]] = el + (b.get("fld") or (("first", "second")[i] if is_pair and i < 2 else
                                                           ("i", "get", num(i))),)
            elif v.get("ref"):
                F.vars[v["d"]] = el
            else:
                loc = self.varloc(v["d"], v["n"], F)
                F.vars[v["d"]] = loc
                S.write(loc, S.read(el))
            return self.ex(s["b"], S, F)

        return self.loop(key, S, F, head, body, None, s)

    def s_switch(self, s, S, F):
        if s.get("init"):
            S = self.ex(s["init"], S, F)
        v = self.ev(s["c"], S, F)
        if S.dead:
            return None
        b = s["b"]
        stmts = b["a"] if b and b["k"] == "block" else [b]
        # flatten cases
        items = []

        def flat(x):
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x)
                x = x["b"]
            return labs, x

        brk = []
        F.brk.append(brk)
        consts = []
        has_default = False
        rest = S.copy()
        entries = []
        for st in stmts:
            labs, x = flat(st)
            entries.append((labs, x))
            for lb in labs:
                if lb["k"] == "case":
                    c = self.ev(lb["c"], S.copy(), F)
                    consts.append(c)
                    rest.cond(binop("==", v, c), False)
                    self.assume(rest, binop("==", v, c), False)
                else:
                    has_default = True
        cur = None
        for i, (labs, x) in enumerate(entries):
            ins = [cur]
            for lb in labs:
                n = S.copy()
                if lb["k"] == "case":
                    c = self.ev(lb["c"], S.copy(), F)
                    n.cond(binop("==", v, c), True)
                    if self.assume(n, binop("==", v, c), True):
                        ins.append(n)
                else:
                    ins.append(rest.copy())
            cur, _ = self.join(ins, ("sw", F.uid, id(s), i))
            if cur is not None and x is not None:
                cur = self.ex(x, cur, F)
        F.brk.pop()
        outs = [cur] + brk
        if not has_default:
            outs.append(rest)
        r, _ = self.join(outs, ("swx", F.uid, id(s)))
        return r

    s_case = lambda self, s, S, F: self.ex(s.get("b"), S, F)
    s_default = s_case
    s_label = s_case

    def s_goto(self, s, S, F):
        return None

    def s_try(self, s, S, F):
        saved = F.throws
        F.throws = []
        b = self.ex(s["b"], S, F)
        caught = F.throws
        F.throws = saved
        outs = [b]
        if caught:
            catchall = any((not h.get("t")) or "std::exception" in h["t"] for h in s["h"])
            if not catchall:
                F.throws.extend(caught)
            h0, _ = self.join([c.S.copy() for c in caught], ("catch", F.uid, id(s)))
            if h0 is not None:
                for i, h in enumerate(s["h"]):
                    hs = h0.copy()
                    if "d" in h:
                        F.vars[h["d"]] = self.varloc(h["d"], h["n"], F)
                    outs.append(self.ex(h["b"], hs, F))
        r, _ = self.join(outs, ("tryx", F.uid, id(s)))
        return r

    # -------------------------------------------------------------- conditions
    def branch(self, e, S, F):
        """returns (state if true or None, state if false or None); S is consumed"""
        k = e["k"]
        if k == "cast":
            return self.branch(e["e"], S, F)
        if k == "bin" and e["op"] == "&&":
            a, b = self.branch(e["a"][0], S, F)
            if a is None:
                return None, b
            c, d = self.branch(e["a"][1], a, F)
            f, _ = self.join([b, d], ("and", F.uid, id(e)))
            return c, f
        if k == "bin" and e["op"] == "||":
            a, b = self.branch(e["a"][0], S, F)
            if b is None:
                return a, None
            c, d = self.branch(e["a"][1], b, F)
            t, _ = self.join([a, c], ("or", F.uid, id(e)))
            return t, d
        if k == "un" and e["op"] == "!":
            a, b = self.branch(e["e"], S, F)
            return b, a
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"][0], S, F)
            return self.branch(e["a"][1], S, F) if not S.dead else (None, None)
        if k == "call" and self.can_split(e, S, F):
            exits = self.split_call(e, S, F)
            ts, fs = [], []
            for x in exits:
                v = x.val if x.val is not None else mk("unk", id(e))
                a, b = x.S.copy(), x.S
                a.cond(v, True)
                b.cond(v, False)
                if self.assume(a, v, True):
                    ts.append(a)
                if self.assume(b, v, False):
                    fs.append(b)
            t, _ = self.join(ts, ("ct", F.uid, id(e)))
            f, _ = self.join(fs, ("cf", F.uid, id(e)))
            return t, f
        v = self.ev(e, S, F)
        if S.dead:
            return None, None
        if v is None:
            v = mk("unk", F.uid, id(e))
        a, b = S.copy(), S
        a.cond(v, True)
        b.cond(v, False)
        return (a if self.assume(a, v, True) else None), (b if self.assume(b, v, False) else None)

    # -------------------------------------------------------------- expressions
    def ev(self, e, S, F):
        if S.dead or e is None:
            return mk("unk", 0)
        self.steps += 1
        k = e["k"]
        r = getattr(self, "e_" + k, self.e_other)(e, S, F)
        if r is None:
            r = mk("unk", k, F.uid, id(e))
        if not self.quiet and not S.dead:
            self.hooks.expr(self, e, r, S, F)
        return r

    def e_int(self, e, S, F):
        return num(int(e["v"]))

    def e_flt(self, e, S, F):
        return num(float(e["v"]))

    def e_bool(self, e, S, F):
        return boolean(e["v"])

    def e_str(self, e, S, F):
        return mk("c", "s", e["v"])

    def e_null(self, e, S, F):
        return mk("c", "p", "null")

    def e_zero(self, e, S, F):
        return num(0)

    def e_this(self, e, S, F):
        return mk("addr", F.this) if F.this else mk("unk", "this")

    def e_cast(self, e, S, F):
        v = self.ev(e["e"], S, F)
        ck = e.get("ck")
        if ck == "FloatingToIntegral":
            c = cval(v)
            if c is not None:
                return num(int(c))
            return mk("trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            c = cval(v)
            if c is not None:
                return boolean(bool(c))
            return not_(binop("==", v, num(0)))
        if ck == "PointerToBoolean":
            return not_(binop("==", v, mk("c", "p", "null")))
        if ck == "IntegralCast" and e.get("t", "").startswith("unsigned"):
            c = cval(v)
            if isinstance(c, bool):
                return num(int(c))
            if isinstance(c, int) and c < 0:
                return mk("wrap", v)
            if v.op == "call" and str(v.a[0]).endswith("operator int"):
                return mk("unsigned", v)
        if isinstance(cval(v), bool) and ck == "IntegralCast":
            return num(int(cval(v)))
        return v

    def e_ref(self, e, S, F):
        dk = e.get("dk")
        if dk == "enum":
            return mk("enum", e["qn"])
        if dk == "fn":
            return mk("fnref", e["f"])
        if "cv" in e and dk in ("glob", "slocal", "loc"):
            return num(e["cv"])
        loc = self.lv(e, S, F)
        if loc is None:
            return mk("unk", e.get("n"))
        if not self.quiet:
            self.hooks.read(self, loc, S, F, e)
        return S.read(loc)

    def e_mem(self, e, S, F):
        loc = self.lv(e, S, F)
        if loc is not None:
            if not self.quiet:
                self.hooks.read(self, loc, S, F, e)
            return S.read(loc)
        return project(self.ev(e["e"], S, F), e["n"])

    def e_memfn(self, e, S, F):
        self.ev(e["e"], S, F)
        return mk("fnref", e["f"])

    def e_bin(self, e, S, F):
        op = e["op"]
        if op in ("&&", "||"):
            # value context: keep the structure when the operands are pure, otherwise split
            St, Sf = self.branch(e, S.copy(), F)
            l = self.ev(e["a"][0], S, F)
            probe = S.copy()
            if not self.assume(probe, l, op == "&&"):
                return boolean(op == "||")
            r = self.ev(e["a"][1], probe, F)
            j, _ = self.join([x for x in (St, Sf)], ("lg", F.uid, id(e)))
            S.become(j)
            return binop(op, l, r)
        a = self.ev(e["a"][0], S, F)
        b = self.ev(e["a"][1], S, F)
        if op == ",":
            return b
        if op == "/" and is_integral(e.get("t", "")):
            return idiv(a, b)
        return binop(op, a, b)

    def e_un(self, e, S, F):
        op = e["op"]
        if op == "&":
            loc = self.lv(e["e"], S, F)
            return mk("addr", loc) if loc is not None else mk("unk", "addr", id(e))
        if op == "*":
            loc = self.lv(e, S, F)
            return S.read(loc) if loc is not None else None
        if op in ("++", "--"):
            loc = self.lv(e["e"], S, F)
            v = S.read(loc) if loc is not None else self.ev(e["e"], S, F)
            nv = binop("+" if op == "++" else "-", v, num(1))
            if loc is not None:
                S.write(loc, nv)
                if not self.quiet:
                    self.hooks.write(self, loc, nv, S, F, e)
            return v if e.get("post") else nv
        v = self.ev(e["e"], S, F)
        if op == "!":
            return not_(v)
        if op == "-":
            c = cval(v)
            if c is not None:
                return num(-c)
            if v.op == "neg":
                return v.a[0]
            return mk("neg", v)
        if op == "+":
            return v
        return mk("un" + op, v)

    def e_asg(self, e, S, F):
        op = e["op"]
        r = self.ev(e["a"][1], S, F)
        loc = self.lv(e["a"][0], S, F)
        if S.dead:
            return r
        if op != "=":
            old = S.read(loc) if loc is not None else self.ev(e["a"][0], S, F)
            if op in ("|=", "&=") and "bool" in e.get("t", ""):
                r = binop("||" if op == "|=" else "&&", old, r)
            elif op == "/=" and is_integral(e.get("t", "")):
                r = idiv(old, r)
            else:
                r = binop(op[:-1], old, r)
        if loc is not None:
            S.write(loc, r)
            if not self.quiet:
                self.hooks.write(self, loc, r, S, F, e)
        return r

    def e_cond(self, e, S, F):
        if e.get("mac") == "assert":
            return num(0)
        St, Sf = self.branch(e["a"][0], S.copy(), F)
        vals = []
        sts = []
        for s, x in ((St, e["a"][1]), (Sf, e["a"][2])):
            if s is None:
                continue
            v = self.ev(x, s, F)
            if not s.dead:
                sts.append(s)
                vals.append({"v": v})
        j, vv = self.join(sts, ("tern", F.uid, id(e)), vals)
        S.become(j)
        return vv["v"] if vv else None

    def e_idx(self, e, S, F):
        loc = self.lv(e, S, F)
        return S.read(loc) if loc is not None else None

    def e_list(self, e, S, F):
        vs = [self.ev(x, S, F) for x in e["a"]]
        if e.get("rec"):
            # aggregate initialisation of a class
            r = self.prog.records.get(e["rec"])
            if r:
                names = [f["n"] for f in r["fields"]]
                nb = len(r["bases"])
                if nb == 1 and len(vs) >= 1:
                    rest = tuple(((n,), v) for n, v in zip(names, vs[1:]))
                    return mk("agg", vs[0], rest) if rest else vs[0]
                if nb == 0 and len(vs) <= len(names):
                    return mk("agg", mk("zero", e["rec"]), tuple(((n,), v) for n, v in zip(names, vs)))
        if len(vs) == 1 and "[" not in e.get("t", "") and "initializer_list" not in e.get("t", ""):
            return vs[0]
        return mk("vec", *vs)

    def e_lambda(self, e, S, F):
        for c in e["caps"]:
            if "e" in c and c.get("d") and c["by"] == "copy":
                pass
        t = mk("lam", id(e), F.uid)
        self.lams[t] = (e, F)
        return t

    def e_throw(self, e, S, F):
        if e.get("e"):
            self.ev(e["e"], S, F)
        if not S.dead:
            if not self.quiet:
                self.hooks.throw(self, S, F, e)
            F.throws.append(Exit(S.copy(), None, e))
        S.dead = True
        return None

    def e_new(self, e, S, F):
        loc = (("new", F.uid, id(e)),)
        if e.get("e"):
            self.init_loc(loc, e["e"], S, F, "", node=e)
        return mk("addr", loc)

    def e_delete(self, e, S, F):
        self.ev(e["e"], S, F)
        return num(0)

    def e_stmtexpr(self, e, S, F):
        r = self.ex(e["s"], S, F)
        S.become(r)
        return None

    def e_ctor(self, e, S, F):
        # a copy of a plain value
        loc = (("t", F.uid, id(e)),)
        S.drop_root(loc[0])
        self.construct(loc, e, S, F)
        if S.dead:
            return None
        v = S.read(loc)
        S.drop_root(loc[0])
        return v

    def e_other(self, e, S, F):
        vs = [self.ev(x, S, F) for x in e.get("a", [])]
        return mk("oth", e.get("cls", e["k"]), *vs)

    # construct in place; the value at loc is set
    def construct(self, loc, e, S, F, base=False):
        fn = self.prog.fns.get(e.get("f"))
        args = e.get("a", [])
        cls = e["qn"].rsplit("::", 1)[0]
        if fn is not None and fn.raw.get("implicit") and args and fn.n != cls_name(fn) and len(fn.inits) == 1 and \
                (fn.inits[0].get("e") or {}).get("f") in self.prog.fns:
            # inherited constructor
            b = fn.inits[0]["e"]
            if "_inh" not in e:
                e["_inh"] = dict(e, f=b["f"], qn=b["qn"])
            return self.construct(loc, e["_inh"], S, F, base)
        if e.get("copy") and len(args) >= 1 and (fn is None or fn.raw.get("defaulted") or fn.raw.get("implicit")):
            v = self.ev(args[0], S, F)
            if not S.dead and v is not None:
                self.put(S, loc, v, base)
            return
        if fn is not None and not fn.raw.get("implicit") and not fn.raw.get("defaulted") and \
                self.may_inline(fn, F) and fn.n == cls_name(fn):
            r = self.invoke(fn, loc, e, args, S, F)
            return
        if fn is not None and (fn.raw.get("defaulted") or fn.raw.get("implicit")) and not args and \
                fn.n == cls_name(fn) and self.may_inline(fn, F):
            self.invoke(fn, loc, e, args, S, F)
            return
        vs, locs = self.args(e, args, S, F)
        if S.dead:
            return
        if not self.quiet:
            self.hooks.call(self, "ctor", e, loc, None, vs, locs, S, F, e)
        self.havoc_args(e, vs, locs, S, F)
        if len(vs) == 1:
            v = vs[0]
        elif len(vs) == 0:
            v = mk("dflt", e["t"] if is_eigen_vec(cls) and "t" in e else cls_key(cls))
        elif cls.split("<")[0].endswith("pair") and len(vs) == 2:
            v = mk("agg", mk("zero", "pair"), ((("first",), vs[0]), (("second",), vs[1])))
        elif is_eigen_vec(cls):
            v = mk("vec", *vs)
        else:
            v = mk("new", cls_key(cls), *vs)
        self.put(S, loc, v, base)

    def put(self, S, loc, v, base):
        if base:
            # a base sub-object shares the location of the object: keep the fields already there
            root, path = loc[0], loc[1:]
            d = S.store.setdefault(root, {})
            if v.op == "agg":
                d[path] = v.a[0]
                for k, x in v.a[1]:
                    d[path + k] = x
            else:
                d[path] = v
            return
        S.write(loc, v)

    # -------------------------------------------------------------- lvalues
    def lv(self, e, S, F):
        """location designated by e, or None when e is a pure value"""
        if S.dead:
            return None
        k = e["k"]
        if k == "ref":
            d = e.get("d")
            dk = e.get("dk")
            if dk in ("glob", "slocal"):
                if dk == "slocal" or "qn" in e:
                    l = self.findvar(d, F)
                    return l if l is not None else (("g", e.get("qn") or e["n"]),)
            if dk in ("loc", "parm", "bind"):
                l = self.findvar(d, F)
                return l if l is not None else (("v", "free", d, e["n"]),)
            return None
        if k == "mem":
            b = e["e"]
            if e.get("arr"):
                if b["k"] == "this":
                    return F.this + (e["n"],) if F.this else None
                p = self.ev(b, S, F)
                return self.deref(p) + (e["n"],)
            l = self.lv(b, S, F)
            if l is None:
                v = self.ev(b, S, F)
                if S.dead:
                    return None
                l = (("t", F.uid, id(b)),)
                S.write(l, v)
            return l + (e["n"],)
        if k == "this":
            return None
        if k == "un":
            if e["op"] == "*":
                b = e["e"]
                if b["k"] == "this":
                    return F.this
                return self.deref(self.ev(b, S, F))
            if e["op"] in ("++", "--") and not e.get("post"):
                self.ev(e, S, F)
                return self.lv(e["e"], S.copy(), F)
            return None
        if k == "asg":
            self.ev(e, S, F)
            return self.lv(e["a"][0], S.copy(), F)
        if k == "idx":
            b, i = e["a"]
            l = self.lv(b, S, F)
            iv = self.ev(i, S, F)
            if l is None:
                return self.deref(self.ev(b, S, F)) + (("i", "at", iv),)
            return l + (("i", "at", iv),)
        if k == "cast":
            ck = e.get("ck")
            if ck in ("NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase", "LValueBitCast", "Dynamic"):
                return self.lv(e["e"], S, F)
            return None
        if k == "cond":
            return None
        if k == "ctor" and e.get("copy") and e.get("elide") and len(e.get("a", [])) == 1:
            return None
        if k == "call":
            return self.lv_call(e, S, F)
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"][0], S, F)
            return self.lv(e["a"][1], S, F)
        return None

    def findvar(self, d, F):
        f = F
        while f is not None:
            l = f.vars.get(d)
            if l is not None:
                return l
            f = f.lamframe
        return None

    def deref(self, p):
        if p.op == "addr":
            return p.a[0]
        return (("deref", p),)

    def lv_call(self, e, S, F):
        n = callee_name(e)
        fn = self.prog.fns.get(e.get("f"))
        if n in IDENT_FNS and fn is None and e.get("a"):
            return self.lv(e["a"][0], S, F)
        if fn is not None and self.may_inline(fn, F, e) and fn.ret.endswith("&"):
            r = self.call_value(e, S, F, want_loc=True)
            return r[1] if r else None
        if fn is None and insertion(e):
            r = self.insert(e, e.get("a", []), S, F)
            return r[1] if r else None
        if fn is None and "obj" in e or (fn is None and e.get("op") == "*" and e.get("a")):
            obj = e.get("obj") or e["a"][0]
            nargs = len(e.get("a", [])) + ("obj" in e) - 1
            if (n in ("operator*", "operator->") and nargs == 0) or (n == "get" and not e.get("a")):
                v = self.ev(obj, S, F)
                if S.dead:
                    return None
                if v.op == "begin":
                    return v.a[0] + (("i", "at", num(0)),)
                return self.deref(v)
            if n in VALUE_PASS or n == "array" and not e.get("a"):
                return self.lv(obj, S, F)
            if n in ACCESS or n in ("first", "second"):
                ol = self.objloc(obj, S, F)
                if ol is None or S.dead:
                    return None
                vs = [self.ev(x, S, F) for x in e.get("a", [])]
                if S.dead:
                    return None
                el = elem(n, e, vs)
                if not self.quiet:
                    self.hooks.access(self, ol, S.read(ol), el, S, F, e)
                return ol + (el,)
            if n == "operator=" or (n in ("operator+=", "operator-=", "operator*=", "operator/=", "operator<<")):
                ol = self.objloc(obj, S, F)
                self.ev(e, S, F)
                return ol
        if n in ("get",) and fn is None and e.get("ta") and e.get("a"):
            l = self.lv(e["a"][0], S, F)
            if l is not None and e["ta"] and str(e["ta"][0]).isdigit():
                return l + (("i", "get", num(int(e["ta"][0]))),)
        return None

    def objloc(self, obj, S, F):
        if obj["k"] == "this":
            return F.this
        # pointer-typed object expressions (p->f()) are dereferenced
        if obj.get("t", "").rstrip().endswith("*") or obj.get("t", "").rstrip().endswith("* const"):
            return self.deref(self.ev(obj, S, F))
        return self.lv(obj, S, F)

    # -------------------------------------------------------------- calls
    def may_inline(self, fn, F, e=None):
        if fn is None or fn.body is None:
            return False
        if self.denied(fn):
            return False
        if F.depth >= self.policy.max_depth:
            return False
        f = F
        while f is not None:
            if f.fn is fn:
                return False
            f = f.parent
        if e is not None and e.get("virt") and not e.get("nonvirt") and self.overridden(fn.id):
            return False
        return self.policy.inline(fn, F)

    def lam_of(self, e, S, F):
        """the lambda a call operator is applied to"""
        if callee_name(e) == "operator()" and "obj" in e:
            v = None
            l = self.lv(e["obj"], S, F)
            v = S.read(l) if l is not None else self.ev(e["obj"], S, F)
            if v is not None and v.op == "lam" and v in self.lams:
                return v
        return None

    def can_split(self, e, S, F):
        fn = self.prog.fns.get(e.get("f"))
        if fn is None or fn.ret != "bool":
            return False
        if fn.kind == "lambda":
            return self.lam_of(e, S.copy(), F) is not None
        return self.may_inline(fn, F, e)

    def split_call(self, e, S, F):
        fn = self.prog.fns.get(e["f"])
        this = None
        lf = None
        if fn.kind == "lambda":
            lam = self.lam_of(e, S, F)
            lf = self.lams[lam][1]
            this = lf.this
        elif "obj" in e and not e.get("stat"):
            this = self.objloc(e["obj"], S, F)
            if this is None and not S.dead:
                this = (("t", F.uid, id(e)),)
                S.write(this, self.ev(e["obj"], S, F))
        if S.dead:
            return []
        return self.inline(fn, this, e, e.get("a", []), S, F, lf)

    def inline(self, fn, this, e, args, S, F, lamframe=None):
        """analyse the callee in context; returns its exits"""
        self.inlined.add(fn.id)
        N = self.frame(fn, this, F, e, (F.uid, id(e), fn.id))
        N.lamframe = lamframe
        # an earlier analysis of the same context left nothing behind
        for r in [r for r in S.store if isinstance(r, tuple) and len(r) > 1 and r[0] in ("v", "t") and r[1] == N.uid]:
            S.drop_root(r)
        names = []
        vals, locs = [], []
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else None
            pl = self.varloc(p["d"], p["n"], N)
            if a is None:
                N.vars[p["d"]] = pl
                vals.append(None)
                locs.append(None)
                continue
            if p.get("ref") in ("c", "r", "x"):
                l = self.lv(a, S, F)
                if S.dead:
                    return []
                if l is not None:
                    N.vars[p["d"]] = l
                    vals.append(None)
                    locs.append(l)
                    continue
            N.vars[p["d"]] = pl
            if a["k"] == "ctor":
                self.construct(pl, a, S, F)
            else:
                v = self.ev(a, S, F)
                if not S.dead and v is not None:
                    S.write(pl, v)
            if S.dead:
                return []
            vals.append(S.read(pl))
            locs.append(pl)
        if not self.quiet:
            self.hooks.call(self, "fn", e, this, None,
                            [v if v is not None else (S.read(l) if l is not None else None)
                             for v, l in zip(vals, locs)], locs, S, F, e)
        self.body(fn, S.copy() if False else S, N)
        if fn.raw.get("ne"):
            N.throws = []      # std::terminate
        F.throws.extend(N.throws)
        outs = []
        for x in N.returns:
            if x.S.dead:
                continue
            if x.loc is not None and x.loc[0][0] in ("v", "t") and x.loc[0][1] == N.uid:
                x.loc = None
            for r in [r for r in x.S.store if isinstance(r, tuple) and len(r) > 1 and r[0] in ("v", "t") and
                      r[1] == N.uid]:
                x.S.drop_root(r)
            outs.append(x)
        return outs

    def invoke(self, fn, this, e, args, S, F, lamframe=None):
        """inline and join the exits into S; returns (value, loc)"""
        exits = self.inline(fn, this, e, args, S.copy(), F, lamframe)
        if not exits:
            S.dead = True
            return None
        loc = exits[0].loc
        if any(x.loc != loc for x in exits):
            loc = None
        j, vv = self.join([x.S for x in exits], ("ret", F.uid, id(e)), [{"v": x.val} for x in exits])
        S.become(j)
        if j is None:
            return None
        if loc is not None:
            return S.read(loc), loc
        return (vv["v"] if vv else exits[0].val), None

    def e_call(self, e, S, F):
        r = self.call_value(e, S, F)
        if r is None:
            return None
        return r[0]

    def args(self, e, args, S, F):
        pp = e.get("pp", "")
        vs, locs = [], []
        off = 0
        for i, a in enumerate(args):
            mode = pp[i] if i < len(pp) else "v"
            l = None
            w = cv_wrapped(a)
            if w is not None:
                # the image or list behind an output argument of OpenCV: written by the call itself
                l = self.lv(w, S, F)
                if l is not None and not S.dead:
                    self.cvouts.add((id(e), i))
            elif mode in "rxc":
                l = self.lv(a, S, F)
            if l is not None:
                v = S.read(l)
                if not self.quiet:
                    self.hooks.read(self, l, S, F, a)
            else:
                v = self.ev(a, S, F)
                if mode == "p" and v is not None and v.op == "addr":
                    l = v.a[0]
            if S.dead:
                return [], []
            vs.append(v if v is not None else mk("unk", id(a)))
            locs.append(l)
        return vs, locs

    def havoc_args(self, e, vs, locs, S, F):
        pp = e.get("pp", "")
        qn = strip(e.get("qn", "?"))
        for i, (v, l) in enumerate(zip(vs, locs)):
            mode = pp[i] if i < len(pp) else "v"
            if v.op == "lam" and v in self.lams:
                self.run_lambda_loop(v, e, S, F)
                if S.dead:
                    return
            elif (mode in "rp" or (id(e), i) in self.cvouts) and l is not None and qn.split("::")[-1] not in FORWARDS:
                nv = mk("out", qn, i, *vs)
                S.write(l, nv)
                if not self.quiet:
                    self.hooks.write(self, l, nv, S, F, e)

    def run_lambda_loop(self, lam, e, S, F):
        node, LF = self.lams[lam]
        fns = [self.prog.fns.get(i) for i in node["fns"]]
        fns = [f for f in fns if f is not None]
        if not fns:
            return
        fn = fns[0]
        key = ("loop", F.uid, id(e), id(node))

        def body(S):
            N = self.frame(fn, LF.this, F, e, (F.uid, id(e), fn.id))
            N.lamframe = LF
            for i, p in enumerate(fn.params):
                l = self.varloc(p["d"], p["n"], N)
                N.vars[p["d"]] = l
                S.write(l, mk("iter", key, i))
            self.body(fn, S, N)
            if not fn.raw.get("ne"):
                F.throws.extend(N.throws)
            self.lamrets[lam] = list(N.returns)
            j, _ = self.join([x.S for x in N.returns], ("lamret", F.uid, id(e)))
            return j

        r = self.loop(key, S.copy(), F, lambda s: (s.copy(), s), body, None, e)
        S.become(r)

    def std_transform(self, e, args, S, F):
        """transform(range or iterators, back_inserter(container), lambda): a loop that appends the lambda's values"""
        def strip_casts(x):
            while x["k"] in ("cast", "paren"):
                x = x["e"]
            if x["k"] == "ctor" and len(x.get("a", [])) == 1:
                return strip_casts(x["a"][0])
            return x
        xs = [strip_casts(x) for x in args]
        ins = next((i for i, x in enumerate(xs) if x["k"] == "call" and callee_name(x) == "back_inserter" and x.get("a")), None)
        if ins is None or ins + 1 >= len(xs) or ins > 2:
            return False
        back = False
        if ins == 1:
            src = xs[0]
        else:
            src = xs[0].get("obj") if xs[0]["k"] == "call" else None
            end = xs[1].get("obj") if xs[1]["k"] == "call" else None
            nm = callee_name(xs[0]) if src else ""
            if nm not in ("begin", "cbegin", "rbegin", "crbegin") or end is None or \
                    callee_name(xs[1]).replace("end", "begin") != nm or \
                    {k: v for k, v in src.items() if k != "l"} != {k: v for k, v in end.items() if k != "l"}:
                return False
            back = "r" in nm.replace("cbegin", "").replace("begin", "")
        lam = self.ev(xs[ins + 1], S, F)
        if lam is None or lam.op != "lam" or lam not in self.lams:
            return False
        rl = self.lv(src, S, F)
        if S.dead:
            return False
        if rl is None:
            rl = (("v", F.uid, id(e), "range"),)
            S.write(rl, self.ev(src, S, F))
        dst = self.lv(xs[ins]["a"][0], S, F)
        if dst is None or S.dead:
            return False
        node, LF = self.lams[lam]
        fns = [f for f in (self.prog.fns.get(i) for i in node["fns"]) if f is not None and len(f.params) == 1]
        if not fns:
            return False
        fn = fns[0]
        key = ("loop", F.uid, id(e))
        el = rl + (("i", "relem" if back else "elem", mk("iter", key, 0)),)

        def body(S):
            N = self.frame(fn, LF.this, F, e, (F.uid, id(e), fn.id))
            N.lamframe = LF
            for p in fn.params:
                l = self.varloc(p["d"], p["n"], N)
                N.vars[p["d"]] = l
                S.write(l, S.read(el))
            self.body(fn, S, N)
            if not fn.raw.get("ne"):
                F.throws.extend(N.throws)
            if not N.returns:
                return None
            rl_ = (("v", N.uid, id(e), "ret"),)
            for x in N.returns:
                x.S.write(rl_, x.val if x.val is not None else mk("unk", id(e)))
            j, _ = self.join([x.S for x in N.returns], ("lamret", F.uid, id(e)))
            if j is None:
                return None
            nv = mk("mod", "push_back", j.read(dst), j.read(rl_))
            j.write(dst, nv)
            if not self.quiet:
                self.hooks.write(self, dst, nv, j, F, e)
            return j

        r = self.loop(key, S.copy(), F, lambda s: (s.copy(), s), body, None, e)
        S.become(r)
        return True

    def call_value(self, e, S, F, want_loc=False):
        n = callee_name(e)
        fn = self.prog.fns.get(e.get("f"))
        args = e.get("a", [])
        if e.get("mac") == "assert" and n == "__assert_fail":
            return num(0), None
        if fn is None and n in IDENT_FNS and len(args) == 1:
            return self.ev(args[0], S, F), None
        # lambdas called directly
        if fn is not None and fn.kind == "lambda":
            lam = self.lam_of(e, S, F)
            if lam is not None:
                node, LF = self.lams[lam]
                return self.invoke(fn, LF.this, e, args, S, F, LF)
        if fn is not None and self.may_inline(fn, F, e):
            this = None
            if fn.raw.get("implicit") or fn.raw.get("defaulted"):
                if fn.raw.get("copyasg") or fn.raw.get("moveasg"):
                    return self.assign(e, S, F)
            if "obj" in e and not e.get("stat"):
                this = self.objloc(e["obj"], S, F)
                if S.dead:
                    return None
                if this is None:
                    this = (("t", F.uid, id(e)),)
                    S.write(this, self.ev(e["obj"], S, F))
                    if S.dead:
                        return None
            return self.invoke(fn, this, e, args, S, F)
        if e.get("op") == "=" and "obj" in e and (fn is None or fn.raw.get("implicit") or fn.raw.get("defaulted") or
                                                  True):
            return self.assign(e, S, F)
        if fn is None and e.get("op") in ("==", "!=") and len(args) + ("obj" in e) == 2:
            ops = ([e["obj"]] if "obj" in e else []) + args
            a, b = self.ev(ops[0], S, F), self.ev(ops[1], S, F)
            return binop(e["op"], a, b), None
        if fn is None and insertion(e):
            return self.insert(e, args, S, F)
        return self.opaque_call(e, n, fn, args, S, F)

    def insert(self, e, args, S, F):
        """out << x: what was written to the stream before, then x"""
        ops = ([e["obj"]] if "obj" in e else []) + args
        loc = self.lv(ops[0], S, F)
        if S.dead:
            return None
        old = S.read(loc) if loc is not None else self.ev(ops[0], S, F)
        v = self.ev(ops[1], S, F)
        if S.dead:
            return None
        v = character(v, ops[1])
        if not self.quiet:
            self.hooks.call(self, "operator<<", e, loc, old, [v], [None], S, F, e)
        v = mk("ins", old, v)
        if loc is not None:
            S.write(loc, v)
            if not self.quiet:
                self.hooks.write(self, loc, v, S, F, e)
        return v, loc

    def assign(self, e, S, F):
        ol = self.objloc(e["obj"], S, F)
        a = e["a"][0]
        v = self.ev(a, S, F)
        if S.dead:
            return None
        if ol is not None and v is not None:
            S.write(ol, v)
            if not self.quiet:
                self.hooks.write(self, ol, v, S, F, e)
        return v, ol

    def comma_init(self, e, args, S, F):
        """M << a, b, c (Eigen): one assignment of the whole sequence"""
        seq = [args[0]]
        x = e["obj"]
        while x["k"] in ("call", "cast", "paren"):
            if x["k"] != "call":
                x = x["e"]
                continue
            if x.get("op") == "," and "obj" in x and x.get("a"):
                seq.insert(0, x["a"][0])
                x = x["obj"]
                continue
            if x.get("op") == "<<" and "obj" in x and x.get("a"):
                seq.insert(0, x["a"][0])
                loc = self.objloc(x["obj"], S, F)
                if S.dead:
                    return None
                if loc is None:
                    return False
                vs = [self.ev(y, S, F) for y in seq]
                if S.dead:
                    return None
                v = mk("cinit", x["obj"].get("t", ""), *vs)
                S.write(loc, v)
                if not self.quiet:
                    self.hooks.write(self, loc, v, S, F, e)
                return v, loc
            return False
        return False

    def opaque_call(self, e, n, fn, args, S, F):
        qn = strip(e.get("qn", "?"))
        objloc = objval = None
        if fn is None and len(args) >= 3 and ("std::transform" in qn or (e.get("obj") or {}).get("qn") == "std::ranges::transform"):
            r = self.std_transform(e, args, S, F)
            if S.dead:
                return None
            if r:
                return mk("call", qn, mk("site", F.uid, id(e))), None
        if fn is None and e.get("op") == "," and "obj" in e and args:
            r = self.comma_init(e, args, S, F)
            if r is not False:
                return r
        if "obj" in e and not e.get("stat"):
            objloc = self.objloc(e["obj"], S, F)
            if S.dead:
                return None
            objval = S.read(objloc) if objloc is not None else self.ev(e["obj"], S, F)
            if S.dead:
                return None
        elif "dyn" in e:
            objval = self.ev(e["dyn"], S, F)
        # Eigen stream initialisation
        if fn is None and e.get("op") == "<<" and objval is not None and is_eigen_type(e.get("qn", "")) and args:
            v = self.ev(args[0], S, F)
            if S.dead:
                return None
            if objloc is not None:
                S.write(objloc, v)
                if not self.quiet:
                    self.hooks.write(self, objloc, v, S, F, e)
                return v, objloc
            return v, None
        if fn is None and e.get("op") in ("+=", "-=", "*=", "/=") and objloc is not None and args:
            v = character(self.ev(args[0], S, F), args[0])
            if S.dead:
                return None
            nv = mk(e["op"][:-1], objval, v)
            S.write(objloc, nv)
            if not self.quiet:
                self.hooks.write(self, objloc, nv, S, F, e)
            return nv, objloc
        if fn is None and n in VALUE_PASS and objval is not None and not args:
            return objval, None
        if fn is None and (n in ACCESS) and objval is not None:
            l = self.lv_call(e, S, F) if objloc is not None else None
            if S.dead:
                return None
            if l is not None:
                if not self.quiet:
                    self.hooks.call(self, n, e, objloc, objval, [], [], S, F, e)
                return S.read(l), l
            vs = [self.ev(x, S, F) for x in args]
            if S.dead:
                return None
            el = elem(n, e, vs)
            if not self.quiet:
                self.hooks.access(self, None, objval, el, S, F, e)
            return project(objval, el), None
        if fn is None and n in ("operator*", "operator->") and objval is not None and not args:
            l = self.deref(objval)
            if n == "operator->":
                return mk("addr", l), None
            return S.read(l), l
        if fn is None and n == "get" and "obj" in e and not args:
            return objval, None       # smart pointers: the pointer itself
        if fn is None and n in ITER_OPS and objloc is not None and not args:
            return mk("begin", objloc), None
        vs, locs = self.args(e, args, S, F)
        if S.dead:
            return None
        if not self.quiet:
            self.hooks.call(self, n, e, objloc, objval, vs, locs, S, F, e)
            self.opaque[qn] = self.opaque.get(qn, 0) + 1
        if e.get("nr"):
            S.dead = True
            return None
        if n == "swap" and fn is None:      # x.swap(y), std::swap(x, y)
            two = [objloc] + locs if objloc is not None else locs
            if len(two) == 2 and None not in two:
                val = [S.read(l) for l in two]
                for l, v in zip(two, reversed(val)):
                    S.write(l, v)
                    if not self.quiet:
                        self.hooks.write(self, l, v, S, F, e)
                return mk("zero", "void"), None
        if self.policy.opaque_throws and not e.get("ne") and fn is None and not self.nothrow_external(e, n):
            F.throws.append(Exit(S.copy(), None, e))
        ta = tuple(str(x) for x in e.get("ta", []) if str(x).lstrip("-").isdigit())
        key = qn if not ta else qn + "<" + ",".join(ta) + ">"
        if e.get("op") and len(vs) + (objval is not None) == 2 and e["op"] in ("+", "-", "*", "/", "<", ">", "<=", ">="):
            ops = ([objval] if objval is not None else []) + vs
            res = binop(e["op"], ops[0], ops[1])
        elif e.get("op") == "-" and len(vs) + (objval is not None) == 1:
            res = mk("neg", ([objval] if objval is not None else vs)[0])
        elif e.get("op") == "!" and len(vs) + (objval is not None) == 1:
            res = not_(([objval] if objval is not None else vs)[0])
        else:
            parts = ([objval] if objval is not None else []) + vs
            if self.nondet(qn, n, fn):
                parts.append(mk("site", F.uid, id(e)))
            if fn is None and n in SHAPED:
                m = _mshape.search(e.get("t", ""))
                if "Eigen::Transform<double, 3" in e.get("t", ""):
                    parts.append(mk("ty", 4, 4))
                else:
                    parts.append(mk("ty", int(m.group(1)), int(m.group(2))) if m and int(m.group(1)) > 0 and
                                 int(m.group(2)) > 0 else mk("ty", 0, 0))
            res = mk("call", key, *parts)
        if n in ("make_pair",) and len(vs) == 2:
            res = mk("agg", mk("zero", "pair"), ((("first",), vs[0]), (("second",), vs[1])))
        if n in ("abs", "fabs", "fabsf") and len(vs) == 1:
            res = mk("abs", vs[0])
        if n == "isApprox" and len(res.a) > 2 and self.approximates(res, res.a[1], res.a[2]):
            res = TRUE
        # effects
        if objloc is not None and not e.get("cst") and not e.get("stat") and n not in PURE_CONTAINER and \
                self.mutates_obj(e, n):
            nv = mk("mod", n, objval, *vs)
            part = modset.fields(self.prog, fn) if fn is not None and not self.overridden(fn.id) else modset.ALL
            if part is modset.ALL:
                S.write(objloc, nv)
                if not self.quiet:
                    self.hooks.write(self, objloc, nv, S, F, e)
            else:
                for p in sorted(part):
                    v = project(nv, p)
                    S.write(objloc + (p,), v)
                    if not self.quiet:
                        self.hooks.write(self, objloc + (p,), v, S, F, e)
        self.havoc_args(e, vs, locs, S, F)
        if S.dead:
            return None
        if n in self.policy.raising:
            t = mk("call", "raises", n, mk("site", F.uid, id(e)))
            N = S.copy()
            N.cond(t, True)
            F.throws.append(Exit(N, None, e))
            S.cond(t, False)
        return res, None

    def approximates(self, t, a, b, depth=0):
        """a is b, or came from branches on which it is b or was found to be approximately b"""
        if a is b:
            return True
        els, v = [], a
        while v.op == "fld":
            els[:0] = v.a[1:]
            v = v.a[0]
        if depth > 4 or v.op != "phi" or v.a[0][0] == "loop" or v not in self.cond:
            return False
        for x, _, pc in self.cond[v]:
            for el in els:
                x = project(x, el)
            if self.approximates(t, x, b, depth + 1):
                continue
            lit = mk("call", t.a[0], x, b, *t.a[3:])
            if not pc or not all((lit, True) in c for c in pc):
                return False
        return True

    def mutates_obj(self, e, n):
        return True

    def nothrow_external(self, e, n):
        return True

    def nondet(self, qn, n, fn):
        return any(x in n for x in ("rand", "getTick", "time", "clock", "now", "get_new_id"))


def oldterm(t, key):
    m = {}
    for x in subterms(t):
        if x.op in ("phi", "iter") and x.a[0] == key:
            m[x] = mk("old", strip_old(x))
    return subst(t, m)


def strip_old(x):
    return mk("oldsym", x.op, repr(x.a[0]), x.a[1] if not isinstance(x.a[1], T) else x.a[1].n)


_ho = {}


def has_old(t, key):
    r = _ho.get(t)
    if r is None:
        r = _ho[t] = any(x.op == "old" for x in subterms(t))
    return r


def elem(n, e, vs):
    if n in XYZ and not vs:
        return ("i", "at", num(XYZ[n]))
    if n in ("operator()", "operator[]", "at", "coeffRef", "coeff"):
        return ("i", "at") + tuple(vs)
    ta = tuple(str(x) for x in e.get("ta", []) if str(x).lstrip("-").isdigit())
    return ("i", n + ("<" + ",".join(ta) + ">" if ta else "")) + tuple(vs)


def cv_wrapped(a):
    """the expression wrapped in an output argument of OpenCV, or None"""
    while a is not None and a["k"] in ("cast", "paren", "temp"):
        a = a.get("e")
    if a is not None and a["k"] == "ctor" and len(a.get("a", [])) == 1 and \
            strip(a.get("qn", "")).split("::")[-1] in ("_OutputArray", "_InputOutputArray"):
        return a["a"][0]
    return None


def callee_name(e):
    q = e.get("qn", "")
    if not q:
        return ""
    if "operator" in q:
        i = q.rfind("::operator")
        if i >= 0:
            r = q[i + 2:]
            return r
        if q.startswith("operator"):
            return q
    return _strip_t(q).split("::")[-1]


def character(v, e):
    """a character literal as text"""
    if isinstance(cval(v), int) and not isinstance(cval(v), bool) and e.get("t", "").split(" ")[-1] == "char":
        return mk("c", "s", chr(cval(v)))
    return v


def insertion(e):
    """an insertion in an output stream"""
    return e.get("op") == "<<" and "basic_ostream" in e.get("t", "") and len(e.get("a", [])) + ("obj" in e) == 2


_st = {}


def _strip_t(q):
    r = _st.get(q)
    if r is None:
        from facts import strip_targs
        r = _st[q] = strip_targs(q)
    return r


def strip(q):
    return _strip_t(q)


def cls_name(fn):
    c = _strip_t(fn.cls or "")
    return c.split("::")[-1]


def cls_key(c):
    return _strip_t(c)


def is_eigen_type(q):
    return q.startswith("Eigen::") or "Eigen::" in q.split("(")[0]


def is_eigen_vec(c):
    return c.startswith("Eigen::Matrix") or c.startswith("Eigen::Array")
