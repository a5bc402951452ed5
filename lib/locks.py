"""Lock sets: what code that runs in parallel reads and writes of the state it shares, with the locks held and the conditions
evaluated before. Works on the syntax trees, through the functions called."""

LOCKS = ("scoped_lock", "lock_guard", "unique_lock", "shared_lock")
PARALLEL = {"parallel_for", "parallel_for_", "parallel_for_each", "parallel_reduce", "parallel_do", "parallel_sort", "forEach",
            "parallel_pipeline"}
TASKS = {"async", "thread", "jthread", "parallel_invoke"}
# give a reference into their object, or only look at it
ACCESS = {"operator()", "operator[]", "at", "x", "y", "z", "w", "block", "diagonal", "col", "row", "head", "tail", "front", "back",
          "segment", "topLeftCorner", "ptr", "value", "get", "operator*", "operator->", "begin", "end", "rbegin", "rend", "cbegin",
          "cend", "data", "size", "empty", "rows", "cols", "length", "capacity", "find", "coeffRef", "leftCols", "rightCols", "topRows", "bottomRows", "first", "second"}
SIZE = {"size", "empty", "rows", "cols", "length", "capacity"}
INDEX = {"operator()", "operator[]", "at", "ptr", "row", "col", "coeffRef", "value"}
SAFE = ("std::atomic", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::once_flag",
        "tbb::concurrent", "tbb::detail::d1::concurrent", "std::shared_timed_mutex", "std::timed_mutex", "std::promise", "std::future")
DEPTH = 14


def kids(e):
    for k, v in e.items():
        if k in ("fns", "ta", "caps"):
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x)
        elif isinstance(x, dict):
            yield x
            st.extend(v for k, v in x.items() if k not in ("fns",) and isinstance(v, (dict, list)))


def cname(e):
    if e.get("op"):
        return "operator" + e["op"]
    q, depth, out = str(e.get("qn", "")), 0, ""
    i = q.rfind("operator")
    if i > 0:
        return q[i:]
    for c in q:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out += c
    return out.split("::")[-1]


def ctype(t):
    t = str(t or "").strip()
    for p in ("const ", "volatile "):
        if t.startswith(p):
            t = t[len(p):]
    return t


def is_const(t):
    t = str(t or "").strip()
    return t.startswith("const ") and not t.endswith("*") or t.endswith(" const") or t.endswith("*const")


def safe(t):
    return ctype(t).startswith(SAFE)


class Access:
    __slots__ = ("path", "kind", "locks", "own", "node", "fn", "conds", "t")

    def __init__(self, path, kind, locks, own, node, fn, conds, t):
        self.path, self.kind, self.locks, self.own, self.node, self.fn, self.conds, self.t = path, kind, locks, own, node, fn, conds, t


class Walker:
    """the accesses of one task to state it shares"""

    def __init__(self, prog, over):
        self.prog, self.over = prog, over
        self.acc = []
        self.env = {}          # declaration -> (path, own) or None (private)
        self.own = set()       # declarations whose value is the index of the iteration
        self.lamb = {}         # declaration -> lambda node
        self.reads = {}        # local declaration -> [(path, lock instances)] its value was read from
        self.locks = {}        # path of the mutex -> instance
        self.conds = []        # reads the current code depends on
        self.stack = []
        self.n = 0
        self.calls = 0
        self.cut = 0
        self.both = False      # own indices need two coordinates

    # ---------------------------------------------------------------- places
    def place(self, e, depth=0):
        """(path, own element, type) of the shared object an expression denotes; None for something private"""
        if not isinstance(e, dict) or depth > 30:
            return None
        k = e.get("k")
        if k in ("cast", "paren"):
            return self.place(e.get("e"), depth + 1)
        if k == "this":
            p = self.env.get("this")
            return p and (p[0], p[1], e.get("t"))
        if k == "ref":
            dk = e.get("dk")
            if dk in ("fn", "enum") or e.get("tls"):
                return None
            if dk in ("glob", "slocal"):
                if str(e.get("qn", "")).startswith("std::") or "cv" in e:
                    return None
                if dk == "slocal" and e.get("d") in self.env and self.env[e["d"]] is None:
                    return None
                r = ("g", e.get("qn") or e.get("n"))
                return ((r + (e["d"],) if dk == "slocal" and e.get("d") else r,), False, e.get("t"))
            d = e.get("d")
            if d in self.env:
                p = self.env[d]
                return p and (p[0], p[1], e.get("t"))
            return ((("v", e.get("n"), d),), False, e.get("t"))
        if k == "mem":
            p = self.place(e.get("e"), depth + 1)
            return p and (p[0] + (e.get("n"),), p[1], e.get("t"))
        if k == "idx":
            a = e.get("a")
            b = a[0] if isinstance(a, list) else e.get("b")
            i = a[1:] if isinstance(a, list) else [e.get("i")]
            p = self.place(b, depth + 1)
            return p and (p[0] + ("[]",), p[1] or self.mine(i), e.get("t"))
        if k == "un" and e.get("op") in ("*", "&"):
            x = e.get("e") or (e.get("a") or [None])[0]
            p = self.place(x, depth + 1)
            return p and (p[0], p[1], e.get("t"))
        if k == "cond":
            for x in (e.get("a") or [])[1:] + [e.get("th"), e.get("el")]:
                p = self.place(x, depth + 1)
                if p:
                    return p
            return None
        if k == "call":
            n = cname(e)
            obj = e.get("obj")
            args = e.get("a") or []
            if obj is None and e.get("op") in ("[]", "()", "*", "->") and args:
                obj, args = args[0], args[1:]
            f = self.prog.fns.get(e.get("f"))
            if obj is not None and (f is None or not f.body):
                p = self.place(obj, depth + 1)
                if p is None:
                    return None
                if n in ACCESS or self.refers(e):
                    return (p[0] + (("[]",) if n in INDEX else ()), p[1] or n in INDEX and self.mine(args), e.get("t"))
                return None
            if f is not None and f.body and self.refers(e) and len(self.stack) < DEPTH and f.id not in self.stack:
                return self.returned(f, e, depth)
        return None

    def refers(self, e):
        f = self.prog.fns.get(e.get("f"))
        r = str(f.ret if f is not None else e.get("t") or "")
        return r.endswith("&") or r.endswith("*")

    def returned(self, f, e, depth):
        env = self.bind(f, e)
        old, self.env = self.env, {**self.env, **env}
        try:
            for x in walk(f.body):
                if x.get("k") == "return" and x.get("e"):
                    p = self.place(x["e"], depth + 1)
                    if p:
                        return (p[0], p[1], e.get("t"))
        finally:
            self.env = old
        return None

    def mine(self, ix):
        """the indices are those of the iteration"""
        ix = [i for i in ix if isinstance(i, dict)]
        hits = sum(1 for i in ix if self.is_own(i))
        return hits >= (2 if self.both and len(ix) > 1 else 1) and not (self.both and len(ix) == 1 and not self.table(ix[0]))

    def table(self, e):
        return self.is_own(e) and e.get("k") != "idx"

    def is_own(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
            e = e.get("e")
        if not isinstance(e, dict):
            return False
        if e.get("k") == "ref":
            return e.get("d") in self.own
        if e.get("k") == "bin" and e.get("op") in ("+", "-", "*"):
            return any(self.is_own(x) for x in e.get("a") or [e.get("l"), e.get("r")])
        if e.get("k") == "call" and cname(e) in ("begin", "end") and isinstance(e.get("obj"), dict) and "_range" in str(e["obj"].get("t")):
            return self.is_own(e["obj"])
        if e.get("k") == "idx":
            a = e.get("a")
            b = a[0] if isinstance(a, list) else e.get("b")
            while isinstance(b, dict) and b.get("k") in ("cast", "paren"):
                b = b.get("e")
            return isinstance(b, dict) and b.get("k") == "ref" and b.get("d") in self.own
        if e.get("k") == "call" and (e.get("obj") is not None or e.get("op") in ("[]", "()")) and cname(e) in INDEX:
            # an entry of a table, at the place of the iteration
            p = self.place(e)
            if p and p[1]:
                return True
        return e.get("k") == "call" and self.gives_own(e)

    def gives_own(self, e):
        """each value that a helper returns is computed from the index of the iteration"""
        f = self.prog.fns.get(e.get("f"))
        if f is None or not f.body or f.id in self.stack or len(self.stack) >= DEPTH:
            return False
        args = e.get("a") or []
        if len(args) == len(f.params) + 1:
            args = args[1:]
        saved = self.env, self.own
        own = {q["d"] for i, q in enumerate(f.params) if i < len(args) and q.get("ref") != "r" and self.is_own(args[i])}
        self.env = {**self.env, **self.bind(f, e)}
        self.own = self.own | own
        self.stack.append(f.id)
        try:
            for x in sorted((d for x in walk(f.body) if x.get("k") == "decl" for d in x.get("a") or ()),
                            key=lambda d: d.get("d") or 0):
                if isinstance(x.get("init"), dict) and self.is_own(x["init"]):
                    self.own.add(x["d"])
            rs = [self.is_own(x["e"]) for x in walk(f.body) if x.get("k") == "return" and x.get("e")]
            return bool(rs) and all(rs)
        finally:
            self.stack.pop()
            self.env, self.own = saved

    # ---------------------------------------------------------------- accesses
    def held(self):
        return dict(self.locks)

    def touch(self, e, kind, p=None):
        p = p or self.place(e)
        if p is None or safe(p[2]):
            return
        path = p[0]
        root = path[0]
        if root[0] == "g":
            g = self.prog.globals.get(root[1])
            if g is not None and (is_const(g.get("t")) or g.get("const") or "cv" in g):
                return
        self.acc.append(Access(path, kind, self.held(), p[1], e, self.fn, tuple(self.conds), p[2]))

    def reads_of(self, e):
        """shared state the value of an expression was read from: [(path, {mutex: instance})]"""
        out = []
        for x in walk(e):
            if x.get("k") in ("ref", "mem", "this"):
                if x.get("k") == "ref" and x.get("d") in self.reads:
                    out += self.reads[x["d"]]
                p = self.place(x)
                if p is not None and not safe(p[2]):
                    out.append((p[0], self.held()))
        return out

    # ---------------------------------------------------------------- expressions
    def ex(self, e, mode="r"):
        """mode: r value read, w written, a only referred to"""
        if isinstance(e, list):
            for x in e:
                self.ex(x)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k in ("ref", "mem", "this", "idx"):
            if mode != "a":
                self.touch(e, mode)
            if k == "mem":
                self.inside(e.get("e"))
            elif k == "idx":
                a = e.get("a")
                if isinstance(a, list):
                    self.inside(a[0])
                    self.ex(a[1:])
                else:
                    self.inside(e.get("b"))
                    self.ex(e.get("i"))
            return
        if k in ("cast", "paren"):
            return self.ex(e.get("e"), mode)
        if k == "asg":
            l, r = e["a"][0], e["a"][1]
            self.ex(r)
            self.ex(l, "w")
            if e.get("op") not in ("=", None):
                self.ex(l, "r")
            return
        if k == "un":
            x = e.get("e") or (e.get("a") or [None])[0]
            op = str(e.get("op"))
            if "++" in op or "--" in op:
                self.ex(x, "r")
                return self.ex(x, "w")
            if op == "&":
                return self.ex(x, "a")
            if op == "*":
                self.ex(x, "a")
                if mode != "a":
                    self.touch(e, mode)
                return
            return self.ex(x)
        if k == "cond":
            a = e.get("a") or [e.get("c"), e.get("th"), e.get("el")]
            self.ex(a[0])
            self.conds.append(self.reads_of(a[0]))
            for x in a[1:]:
                self.ex(x, mode)
            self.conds.pop()
            return
        if k == "lambda":
            return
        if k in ("call", "ctor"):
            return self.call(e, mode)
        for x in kids(e):
            self.ex(x)

    def inside(self, e):
        """subexpressions of a place"""
        while isinstance(e, dict) and e.get("k") in ("mem", "cast", "paren"):
            e = e.get("e")
        if isinstance(e, dict) and e.get("k") not in ("ref", "this"):
            self.ex(e, "a")

    def bind(self, f, e):
        """places of the parameters and the object of a call"""
        env = {}
        args = e.get("a") or []
        if f.kind != "lambda":
            obj = e.get("obj")
            if obj is None and e.get("op") and f.cls and not f.flag("stat") and len(args) == len(f.params) + 1:
                obj, args = args[0], args[1:]
            if f.cls and not f.flag("stat"):
                p = self.place(obj) if obj is not None else None
                env["this"] = p and (p[0], p[1])
        elif len(args) == len(f.params) + 1:
            args = args[1:]
        for i, q in enumerate(f.params):
            a = args[i] if i < len(args) else None
            env[q["d"]] = None
            if a is not None and q.get("ref"):
                p = self.place(a)
                env[q["d"]] = p and (p[0], p[1])
        return env

    def call(self, e, mode):
        n = cname(e)
        obj = e.get("obj")
        args = e.get("a") or []
        if e.get("k") == "call" and obj is None and e.get("op") in ("[]", "()", "*", "->", "=", "+=", "-=", "*=", "/=", "<<=", "++", "--", "|=", "&=") and args:
            f0 = self.prog.fns.get(e.get("f"))
            if f0 is None or not f0.body or f0.kind == "lambda":
                obj, args = args[0], args[1:]
        # locks
        if n in ("lock", "unlock", "lock_shared", "unlock_shared") and obj is not None:
            p = self.place(obj)
            t = str((obj or {}).get("t", ""))
            if "lock<" in t:           # the lock object of a scope
                d = obj.get("d")
                for m in self.owned.get(d, ()) if hasattr(self, "owned") else ():
                    if n.startswith("unlock"):
                        self.locks.pop(m, None)
                    else:
                        self.n += 1
                        self.locks[m] = self.n
                return
            if p is not None and "mutex" in t:
                if n.startswith("unlock"):
                    self.locks.pop(p[0], None)
                else:
                    self.n += 1
                    self.locks[p[0]] = self.n
                return
        fs = self.callees(e)
        lams = []
        for i, a in enumerate(args):
            l = self.lam(a)
            if l is not None:
                lams.append(l)
        if obj is not None and self.lam(obj) is not None and n == "operator()":
            l = self.lam(obj)
            self.ex(args)
            for i in l.get("fns") or ():
                f = self.prog.fns.get(i)
                if f is not None:
                    self.enter(f, self.bind_plain(f, args), args)
            return
        if fs:
            for i, a in enumerate(args):
                if self.lam(a) is None:
                    self.ex(a, "a" if self.byref(fs[0], i, e) else "r")
            if obj is not None:
                self.ex(obj, "a")
            for f in fs:
                self.enter(f, self.bind(f, e), args)
            for l in lams:
                self.run(l)
            return
        # outside the library
        pp = e.get("pp", "")
        shift = 0
        for i, a in enumerate(args):
            if self.lam(a) is not None:
                continue
            m = pp[i + shift] if i + shift < len(pp) else "v"
            if m in "rp" and not is_const((a or {}).get("t")) and n not in ("move", "forward", "ref", "tie", "get", "as_const"):
                self.ex(a, "a")
                if m == "r" or str((a or {}).get("t", "")).rstrip().endswith("*"):
                    self.touch(a, "w")
            elif "OutputArray" in str((a or {}).get("t", "")):
                self.ex(a, "w")
            elif n in ("move", "forward", "ref", "tie"):
                self.ex(a, mode)
            else:
                self.ex(a)
        if obj is not None:
            self.ex(obj, "a")
            assign = n.startswith("operator") and n.endswith("=") and n not in ("operator==", "operator!=", "operator<=", "operator>=") or \
                n in ("operator++", "operator--")
            if n == "operator()" and ctype(obj.get("t")).startswith("std::") and not e.get("cst"):
                self.touch(obj, "w")           # a stateful function object: a random engine, a distribution
            elif n in ACCESS and not assign:
                if n in INDEX or n in ("operator*", "operator->", "get", "front", "back", "x", "y", "z", "w", "data"):
                    if mode == "w":
                        self.touch(e, "w")
                    elif mode == "r":
                        self.touch(e, "r", self.place(e) or self.place(obj))
                elif n in SIZE:
                    p = self.place(obj)
                    if p is not None:
                        self.touch(obj, "r", (p[0] + ("#size",), p[1], p[2]))
                else:
                    self.touch(obj, "w" if mode == "w" else "r")
            elif e.get("cst") or is_const((obj or {}).get("t")) or e.get("stat"):
                self.touch(obj, "r")
            else:
                self.touch(obj, "w")
                if assign and n != "operator=":
                    self.touch(obj, "r")
        for l in lams:
            self.run(l)

    def byref(self, f, i, e):
        args = e.get("a") or []
        if f.kind != "lambda" and e.get("obj") is None and e.get("op") and f.cls and len(args) == len(f.params) + 1:
            i -= 1
            if i < 0:
                return True
        return 0 <= i < len(f.params) and bool(f.params[i].get("ref"))

    def lam(self, a):
        while isinstance(a, dict) and a.get("k") in ("cast", "paren"):
            a = a.get("e")
        if not isinstance(a, dict):
            return None
        if a.get("k") == "lambda":
            return a
        if a.get("k") == "ref" and a.get("d") in self.lamb:
            return self.lamb[a["d"]]
        if a.get("k") in ("ctor", "call") and len(a.get("a") or ()) == 1 and ("function" in str(a.get("t")) or cname(a) in ("ref", "move", "cref") or a.get("k") == "ctor" and "lambda" in str(a.get("t"))):
            return self.lam(a["a"][0])
        return None

    def run(self, l):
        for i in l.get("fns") or ():
            f = self.prog.fns.get(i)
            if f is not None:
                self.enter(f, {q["d"]: None for q in f.params}, ())

    def bind_plain(self, f, args):
        env = {}
        for i, q in enumerate(f.params):
            p = self.place(args[i]) if i < len(args) and q.get("ref") else None
            env[q["d"]] = p and (p[0], p[1])
        return env

    def callees(self, e):
        f = self.prog.fns.get(e.get("f"))
        out = []
        if f is not None and f.body:
            out.append(f)
        if e.get("k") == "call" and (e.get("virt") or f is not None and f.flag("virt")):
            out += [g for g in self.over.get(e.get("f"), ()) if g.body and g not in out]
        return out

    def enter(self, f, env, args):
        if f.id in self.stack or len(self.stack) >= DEPTH:
            self.cut += f.id not in self.stack
            return
        self.calls += 1
        own = {q["d"] for i, q in enumerate(f.params) if i < len(args) and (not q.get("ref") or is_const(str(q.get("t")))) and
               self.is_own(args[i])}
        saved = self.env, self.fn, self.locks, self.own
        self.env = {**self.env, **env}
        self.own = self.own | own
        self.fn = f
        self.locks = dict(self.locks)
        self.stack.append(f.id)
        nc = len(self.conds)
        for i in f.inits or ():
            if isinstance(i, dict):
                for x in kids(i):
                    self.ex(x)
        self.st(f.body)
        del self.conds[nc:]
        self.stack.pop()
        self.env, self.fn, self.locks, self.own = saved

    # ---------------------------------------------------------------- statements
    def leaves(self, s):
        """the statement does not go on to the next one"""
        if isinstance(s, dict):
            if s.get("k") in ("return", "break", "continue", "goto"):
                return True
            if s.get("k") == "block":
                return any(self.leaves(x) for x in s.get("a") or ())
            if s.get("k") == "expr":
                return isinstance(s.get("e"), dict) and s["e"].get("k") == "throw"
        return False

    def st(self, s):
        if isinstance(s, list):
            for x in s:
                self.st(x)
            return
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            before, nc = dict(self.locks), len(self.conds)
            mine = []
            for x in s.get("a") or ():
                mine += self.st(x) or []
            for m in mine:
                if m in before:
                    self.locks[m] = before[m]
                else:
                    self.locks.pop(m, None)
            del self.conds[nc:]
            return
        if k == "decl":
            return self.decl(s.get("a") or ())
        if k == "if":
            got = []
            if s.get("init"):
                got += self.st(s["init"]) or []
            if s.get("cv"):
                got += self.decl([s["cv"]])
            self.ex(s.get("c"))
            if "cval" in s:
                self.st(s.get("th") if s["cval"] else s.get("el"))
                return got
            rd = self.reads_of(s.get("c"))
            before = dict(self.locks)
            self.conds.append(rd)
            self.st(s.get("th"))
            a = self.locks
            self.locks = dict(before)
            self.st(s.get("el"))
            b = self.locks
            self.conds.pop()
            lt, le = self.leaves(s.get("th")), self.leaves(s.get("el"))
            self.locks = b if lt else a if le else {m: i for m, i in a.items() if b.get(m) == i}
            if lt or le:
                self.conds.append(rd)          # what follows depends on the condition too
            return got
        if k in ("while", "for", "do", "rfor", "switch"):
            nc = len(self.conds)
            before = dict(self.locks)
            if s.get("init"):
                self.st(s["init"])
            if k == "rfor":
                self.ex(s.get("r"), "r")
                self.decl([s["v"]], over=s.get("r"))
            if s.get("c"):
                self.ex(s["c"])
                self.conds.append(self.reads_of(s["c"]))
            self.st(s.get("b"))
            self.ex(s.get("inc"))
            del self.conds[nc:]
            self.locks = {m: i for m, i in self.locks.items() if before.get(m) == i}
            return
        if k == "try":
            self.st(s.get("b"))
            for h in s.get("h") or ():
                if h.get("d"):
                    self.env[h["d"]] = None
                self.st(h.get("b"))
            return
        if k in ("expr", "return"):
            return self.ex(s.get("e"), "a" if k == "return" and False else "r") if not self.loose(s.get("e")) else self.ex(s.get("e"), "a")
        if k in ("case", "default", "label"):
            return self.st(s.get("b"))
        if k in ("null", "break", "continue", "goto"):
            return
        self.ex(s)

    def loose(self, e):
        return False

    def decl(self, ds, over=None):
        got = []
        for d in ds:
            i = d.get("init")
            t = str(d.get("t", ""))
            if d.get("static") and not d.get("tls"):
                if not d.get("const") and not safe(t):
                    # one object for all threads
                    self.env[d["d"]] = ((("g", d.get("qn") or d.get("n"), d["d"]),), False)
                else:
                    self.env[d["d"]] = ((("g", d.get("qn") or d.get("n"), d["d"]),), False) if "mutex" in t else None
                continue
            lk = next((l for l in LOCKS if l + "<" in t or t.endswith(l)), None)
            if lk and isinstance(i, dict):
                ms = []
                deferred = any("defer_lock" in str(x.get("t", "")) + str(x.get("n", "")) or "try_to_lock" in str(x.get("n", ""))
                               for x in walk(i))
                for a in i.get("a") or ():
                    p = self.place(a)
                    if p is not None and "mutex" in str(p[2]):
                        ms.append(p[0])
                if not hasattr(self, "owned"):
                    self.owned = {}
                self.owned[d["d"]] = ms
                self.env[d["d"]] = None
                if not deferred:
                    for m in ms:
                        self.n += 1
                        self.locks[m] = self.n
                got += ms
                continue
            l = self.lam(i) if isinstance(i, dict) else None
            if l is not None:
                self.lamb[d["d"]] = l
                self.env[d["d"]] = None
                continue
            src = over if over is not None else i
            if d.get("ref") or t.rstrip().endswith("*") or "Ptr" in t or over is not None and d.get("ref"):
                p = self.place(src) if isinstance(src, dict) else None
                if i is not None and over is None:
                    self.ex(i, "a" if p is not None else "r")
                self.env[d["d"]] = p and (p[0], p[1])
            else:
                if over is None:
                    self.ex(i)
                self.env[d["d"]] = None
            if isinstance(src, dict):
                self.reads[d["d"]] = self.reads_of(src)
                if over is None and self.is_own(i) and not (d.get("ref") == "r"):
                    self.own.add(d["d"])
            for b in d.get("binds") or ():
                self.env[b["d"]] = self.env[d["d"]]
        return got


def regions(prog):
    """[(kind, outer function, call node, [lambda])] of the code that runs in parallel"""
    out = []
    for f in prog.src():
        if not f.body:
            continue
        ls = {}
        for x in walk(f.body):
            if x.get("k") == "decl":
                for d in x.get("a") or ():
                    i = d.get("init")
                    while isinstance(i, dict) and i.get("k") in ("cast", "paren"):
                        i = i.get("e")
                    if isinstance(i, dict) and i.get("k") == "lambda":
                        ls[d["d"]] = i
        for x in walk(f.body):
            if x.get("k") not in ("call", "ctor"):
                continue
            n = cname(x)
            pol = any("execution::" in str(y.get("t", "")) and "parallel" in str(y.get("t", "")) for y in x.get("a") or () if isinstance(y, dict))
            if n not in PARALLEL and n not in TASKS and not pol or n == "forEach" and x.get("obj") is None and not x.get("a"):
                continue
            lam = []
            for a in x.get("a") or ():
                while isinstance(a, dict) and a.get("k") in ("cast", "paren"):
                    a = a.get("e")
                if isinstance(a, dict) and a.get("k") == "lambda":
                    lam.append(a)
                elif isinstance(a, dict) and a.get("k") == "ref" and a.get("d") in ls:
                    lam.append(ls[a["d"]])
            out.append(("tasks" if n in TASKS else "loop", f, x, lam, n, ls))
    return out


def overriders(prog):
    ov = {}
    for f in prog.fns.values():
        for o in f.flag("over") or ():
            ov.setdefault(o, []).append(f)
    # transitive
    for k in list(ov):
        st, seen = list(ov[k]), set()
        while st:
            g = st.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            st += ov.get(g.id, [])
        ov[k] = [prog.fns[i] for i in seen]
    return ov


def task(prog, ov, outer, lam, kind, name, ls):
    """accesses of the body of a parallel callback"""
    w = Walker(prog, ov)
    w.lamb.update(ls)
    w.fn = outer
    w.env["this"] = ((("this",),), False)
    for c in lam.get("caps") or ():
        if c.get("by") == "copy" and "d" in c and not c.get("this"):
            w.env[c["d"]] = None
    for i in lam.get("fns") or ():
        f = prog.fns.get(i)
        if f is None:
            continue
        env = {q["d"]: None for q in f.params}
        if kind == "loop":
            w.both = name == "forEach"
            w.own = {q["d"] for q in f.params if not q.get("ref") or name == "forEach" or "_range" in str(q.get("t"))}
            if name not in PARALLEL:          # an algorithm over the elements: each is given to one call
                env = {q["d"]: ((("element",),), True) if q.get("ref") else None for q in f.params}
            if w.both and f.params:
                w.own.discard(f.params[0]["d"])
        w.env.update(env)
        w.fn = f
        w.stack.append(f.id)
        w.st(f.body)
        w.stack.pop()
    return w


def overlap(a, b):
    """one place contains the other"""
    x, y = [u for u in a if u != "[]"], [u for u in b if u != "[]"]
    for p, q, l in ((x, y, b), (y, x, a)):
        if p and p[-1] == "#size" and len(q) == len(p) - 1 and l[-1] == "[]":
            return False           # how many elements there are, and one of them
    n = min(len(x), len(y))
    return x[:n] == y[:n]
