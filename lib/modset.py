"""Which members of its object a method may modify, from its syntax tree and those of the methods it calls on the object."""

LVALUE = {"operator()", "operator[]", "at", "x", "y", "z", "w", "block", "diagonal", "col", "row", "head", "tail", "front",
          "back", "segment", "topLeftCorner", "ptr", "value", "get", "operator*", "operator->", "begin", "end", "rbegin",
          "rend", "data", "size", "empty", "find"}
ALL = None


def name(e):
    return str(e.get("qn", "")).split("::")[-1].split("<")[0] if not e.get("op") else "operator" + e["op"]


def fields(prog, fn, busy=None):
    """set of names of members of *this, or ALL when it cannot be told"""
    memo = prog.__dict__.setdefault("_modsets", {})
    if fn.id in memo:
        return memo[fn.id]
    top = busy is None
    busy = {} if top else busy
    if fn.id in busy:
        return busy[fn.id]
    cur = set()
    while True:
        busy[fn.id] = cur
        out = set()
        ok = one(prog, fn, out, busy)
        if not ok:
            cur = ALL
            break
        if out <= cur:
            break
        cur = cur | out
    del busy[fn.id]
    if top:
        memo[fn.id] = cur
    return cur


def root(e):
    """member of *this an lvalue expression is part of; "this" for the object itself; None for something else"""
    while True:
        k = e.get("k")
        if k == "this":
            return "this"
        if k == "mem":
            b = e.get("e") or {}
            if b.get("k") == "this" or b.get("k") == "un" and b.get("op") == "*" and (b.get("a") or b.get("e") or {}) and \
                    strip(b).get("k") == "this":
                return e["n"]
            e = b
        elif k in ("cast", "paren"):
            e = e["e"]
        elif k == "idx":
            e = e["a"][0] if isinstance(e.get("a"), list) else e.get("b") or {}
        elif k == "un" and e.get("op") in ("*", "&"):
            e = inner(e)
        elif k == "call" and "obj" in e and name(e) in LVALUE:
            e = e["obj"]
        elif k == "call" and e.get("op") in ("[]", "()") and e.get("a"):
            e = e["a"][0]
        else:
            return None


def output(a):
    """the array behind a temporary that refers to it"""
    while a.get("k") in ("ctor", "cast") and "Array" in str(a.get("t", "")):
        x = a.get("a") or a.get("e")
        x = x[0] if isinstance(x, list) and x else x
        if not isinstance(x, dict):
            break
        a = x
    return a


def inner(e):
    x = e.get("e") or e.get("a") or {}
    return x[0] if isinstance(x, list) else x


def strip(e):
    while e.get("k") in ("cast", "paren", "un"):
        e = inner(e)
    return e


def const_type(t):
    t = str(t).strip()
    return t.startswith("const ") or t.endswith("const")


def one(prog, fn, out, busy):
    st = [fn.raw.get("body"), fn.raw.get("inits")]
    while st:
        e = st.pop()
        if isinstance(e, list):
            st.extend(e)
            continue
        if not isinstance(e, dict):
            continue
        k = e.get("k")
        w = None
        if k == "asg":
            w = e["a"][0] if isinstance(e.get("a"), list) else e.get("lhs") or e.get("x")
            if w is None:
                return False
        elif k == "un" and e.get("op") in ("++", "--", "&") or k == "un" and str(e.get("op")).strip("_ postprefix") in ("++", "--"):
            w = inner(e)
            if e.get("op") == "&" and const_type(e.get("t", "")):
                w = None
        elif k == "call":
            if "obj" in e and not e.get("stat") and not e.get("cst"):
                r = root(e["obj"])
                if r == "this":
                    f = prog.fns.get(e.get("f"))
                    m = fields(prog, f, busy) if f is not None and not e.get("virt") else ALL
                    if m is ALL:
                        return False
                    out |= m
                elif r is not None and name(e) not in LVALUE:
                    out.add(r)
            pp = e.get("pp", "")
            for i, a in enumerate(e.get("a") or ()):
                if isinstance(a, dict) and ((pp[i] if i < len(pp) else "v") in "rp" or "OutputArray" in str(a.get("t", ""))):
                    r = root(output(a))
                    if r == "this":
                        return False
                    if r is not None:
                        out.add(r)
        elif k == "decl":
            for d in e.get("a") or ():
                i = d.get("init")
                if isinstance(i, dict) and (d.get("ref") or "&" in str(d.get("t")) or str(d.get("t", "")).rstrip().endswith("*")):
                    if not const_type(d.get("t", "")):
                        r = root(i)
                        if r == "this":
                            return False
                        if r is not None:
                            out.add(r)
        elif k == "rfor":
            v = e.get("v") or e.get("var") or {}
            if not const_type(v.get("t", "const ")):
                for x in (e.get("r"), e.get("range"), e.get("e")):
                    if isinstance(x, dict):
                        r = root(x)
                        if r == "this":
                            return False
                        if r is not None:
                            out.add(r)
        elif k == "lambda":
            for i in e.get("fns") or ():
                f = prog.fns.get(i)
                if f is None:
                    return False
                if not one(prog, f, out, busy):
                    return False
        if w is not None:
            r = root(w)
            if r == "this":
                return False
            if r is not None:
                out.add(r)
        st.extend(v for kk, v in e.items() if isinstance(v, (dict, list)) and kk not in ("fns",))
    return True


def variable(e):
    """declaration an lvalue expression is part of; None for something else"""
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("cast", "paren", "mem"):
            e = e.get("e")
        elif k == "idx":
            e = e["a"][0] if isinstance(e.get("a"), list) else e.get("b")
        elif k == "un":
            e = inner(e)
        elif k == "call" and "obj" in e:
            e = e["obj"]
        elif k == "call" and e.get("op") in ("[]", "()") and e.get("a"):
            e = e["a"][0]
        else:
            return e.get("d")
    return None


def written(prog, fn, d):
    """the function may modify its local variable d after its definition"""
    st = [fn.raw.get("body")]
    while st:
        e = st.pop()
        if isinstance(e, list):
            st.extend(e)
            continue
        if not isinstance(e, dict):
            continue
        k = e.get("k")
        ws = []
        if k == "asg":
            ws.append(e["a"][0] if isinstance(e.get("a"), list) else e.get("lhs") or e.get("x"))
        elif k == "un" and (e.get("op") == "&" or str(e.get("op")).strip("_ postprefix") in ("++", "--")):
            ws.append(inner(e))
        elif k == "call":
            if "obj" in e and not e.get("stat") and not e.get("cst"):
                ws.append(e["obj"])
            pp = e.get("pp", "")
            for i, a in enumerate(e.get("a") or ()):
                if isinstance(a, dict) and ((pp[i] if i < len(pp) else "v") in "rp" or "OutputArray" in str(a.get("t", ""))):
                    ws.append(output(a))
        elif k == "decl":
            for v in e.get("a") or ():
                if isinstance(v.get("init"), dict) and (v.get("ref") or "&" in str(v.get("t")) or str(v.get("t", "")).rstrip().endswith("*")) and \
                        not const_type(v.get("t", "")):
                    ws.append(v["init"])
        elif k == "rfor":
            ws += [x for x in (e.get("r"), e.get("range"), e.get("e")) if isinstance(x, dict)]
        elif k == "lambda":
            for i in e.get("fns") or ():
                f = prog.fns.get(i)
                if f is None or written(prog, f, d):
                    return True
        if any(w is None or variable(w) == d for w in ws):
            return True
        st.extend(v for kk, v in e.items() if isinstance(v, (dict, list)) and kk not in ("fns",))
    return False
