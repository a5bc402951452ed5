RULE = """
The text each map writer appends, by value numbering of its output stream (insertions are terms, string concatenation and
number conversion are looked through), is parsed into lines and words with symbolic numbers; loops are treated by induction:
what one iteration appends, to the stream and to the list of references, with the vertex counter as loop invariant. Every
vertex line carries the three coordinates of its point, and every reference is the number of a vertex written by the same
element: counter at the time of writing, the counter being advanced by exactly the number of vertices written.
"""
import re
from formula import *
from preds import *
from loops import *

NONE = ("is_open", "flush")


def run(ctx):
    for cls, ext in (("XYZ_Map_Writer", ".xyz"), ("PCD_Map_Writer", ".pcd"), ("OBJ_Map_Writer", ".obj")):
        ctx.group(created, cls, ext)
    for cls in ("XYZ_Map_Writer", "PCD_Map_Writer"):
        ctx.group(plain, cls)
        ctx.group(ignored, cls)
    for n, word in (("add_point", "p"), ("add_line", "l"), ("add_polygon", "f")):
        ctx.group(referenced, n, word)
    ctx.assume("The default number formatting of the streams; the polygons given are closed, their last point repeats the first.")


def undecided(ctx, g, why):
    ctx.count("undecided")
    ctx.notes.append("undecided: %s: %s" % (g.sid, why))


class NotText(Exception):
    pass


def callname(t):
    return str(t.a[0]).split("::")[-1].split("<")[0]


def stripped(t):
    while t.op == "mod" and t.a[0] in NONE:
        t = t.a[1]
    return t


class Text:
    """text written, as a list of strings and numbers (terms) and strings carried around loops"""

    def __init__(self, g, ch=None):
        self.g = g

    def word(self, t):
        """tokens of a value inserted or concatenated"""
        if t.op == "c" and t.a[0] == "s":
            return [t.a[1]]
        if t.op == "new" and "basic_string" in str(t.a[0]):
            a = [x for x in t.a[1:] if isinstance(x, T) and x.op != "dflt"]
            return self.word(a[0]) if a else [""]
        if t.op == "dflt" and "basic_string" in str(t.a[0]):
            return [""]
        if t.op == "+" and self.stringy(t):
            return self.word(t.a[0]) + self.word(t.a[1])
        if t.op == "call" and callname(t) == "operator+":
            return self.word(t.a[1]) + self.word(t.a[2])
        if t.op == "call" and callname(t) == "to_string":
            return [("n", t.a[1])]
        if t.op == "call" and callname(t) in ("endl",) or "endl" in show(t):
            return ["\n"]
        if t.op == "call" and callname(t) == "str" and t.a[1].op == "ins":
            base, toks = self.stream(t.a[1])
            if base.op in ("dflt", "new"):
                return toks
        if t.op == "mod" and t.a[0] in ("append", "push_back", "operator+=") and len(t.a) > 2:
            return self.word(t.a[1]) + self.word(t.a[2])
        if t.op == "phi":
            return [("s", t)]
        return [("n", t)]

    def stringy(self, t):
        if t.op == "+":
            return any(isinstance(x, T) and self.stringy(x) for x in t.a)
        return t.op == "c" and t.a[0] == "s" or t.op == "new" and "basic_string" in str(t.a[0]) or \
            t.op == "call" and callname(t) == "to_string" or \
            t.op == "phi" and any(self.stringy(c[0]) for c in self.g.E.cond.get(t, ())[:1])

    def stream(self, t):
        """(what the stream was, tokens appended)"""
        out = []
        t = stripped(t)
        while t.op == "ins":
            out = self.word(t.a[1]) + out
            t = stripped(t.a[0])
        return t, out


def lines(toks):
    """lines of words; a word is a string or a token"""
    s, ref = "", []
    for t in toks:
        if isinstance(t, str):
            s += t
        else:
            s += "\x01%d\x02" % len(ref)
            ref.append(t)
    out = []
    ends = s.endswith("\n") or not s
    for l in s.split("\n")[:-1] if ends else s.split("\n"):
        ws = []
        for w in l.split(" "):
            if w == "":
                continue
            m = re.fullmatch("\x01(\\d+)\x02", w)
            if m:
                ws.append(ref[int(m.group(1))])
            elif "\x01" in w:
                ps = [x for x in re.split("(\x01\\d+\x02)", w) if x]
                # a keyword directly followed by a list that starts with its own separator
                if len(ps) == 2 and ps[1][0] == "\x01" and ref[int(ps[1][1:-1])][0] == "s":
                    ws += [ps[0], ref[int(ps[1][1:-1])]]
                else:
                    ws.append(("mixed", w))
            else:
                ws.append(w)
        out.append(ws)
    return out, ends


FILE = (("o", "this"), "_file")


def coordinates_of(ctx, g, x, ws, point, key, what):
    """the words are the three coordinates of the point (path -> term)"""
    ctx.item("%s: %s" % (g.sid, what))
    if len(ws) != 3:
        ctx.violation("%s:%s" % (g.sid, key), where(g.fn, x.node), "%s: %d words, not three coordinates" % (what, len(ws)))
        return
    for i, w in enumerate(ws):
        want = point(i)
        if not (isinstance(w, tuple) and w[0] == "n"):
            ctx.violation("%s:%s" % (g.sid, key), where(g.fn, x.node), "%s: coordinate %d is not written" % (what, i))
            return
        try:
            A = g.alg()
            a, b = A.sc(w[1]), A.sc(want)
        except Shape:
            undecided(ctx, g, what)
            return
        if not equal(a, b):
            if unknown_atoms(a) and w[1].op not in ("init", "c"):
                undecided(ctx, g, what)
                return
            ctx.violation("%s:%s" % (g.sid, key), where(g.fn, x.node), "%s: coordinate %d is %s" % (what, i, show(w[1])[:60]))
            return


def at(i):
    return ("i", "at", num(i))


def created(ctx, cls, ext):
    f = pick1(ctx, cls + "::" + cls, lambda f: len(f.params) == 1 and "string" in f.params[0]["t"])
    g = Fx(ctx, f)
    ctx.item("%s: opens the file of that name with the extension %s, emptied" % (g.sid, ext))
    for x in g.exits:
        t, toks = Text(g).stream(x.S.read(FILE))
        if not (t.op == "mod" and t.a[0] == "open"):
            if t.op == "new" and len(t.a) > 1:
                name, mode = t.a[1], t.a[2] if len(t.a) > 2 else None
            else:
                undecided(ctx, g, "file not opened by name: " + show(t)[:60])
                continue
        else:
            name, mode = t.a[2], t.a[3] if len(t.a) > 3 else None
        w = [y for y in Text(g).word(name) if y != ""]
        if len(w) != 2 or w[1] != ext or w[0][1] is not g.par(0):
            ctx.violation("%s:name" % g.sid, where(f, x.node), "the file opened is not the name with %s" % ext)
        m = show(mode) if mode is not None else ""
        c = cval(mode) if mode is not None else None
        bits = [cval(u) for u in subterms(mode)] if mode is not None else []
        if 1 in bits or "app" in m:
            ctx.violation("%s:mode" % g.sid, where(f, x.node), "the file is opened for appending: the map of a previous run is kept")
        if cls == "PCD_Map_Writer":
            ls, ends = lines(toks)
            ctx.item("%s: header of a cloud of three float fields, then ascii data" % g.sid)
            h = {l[0]: l[1:] for l in ls if l and isinstance(l[0], str)}
            want = {"FIELDS": ["x", "y", "z"], "SIZE": ["4"] * 3, "TYPE": ["F"] * 3, "DATA": ["ascii"]}
            for k, v in want.items():
                if h.get(k) != v:
                    ctx.violation("%s:header:%s" % (g.sid, k), where(f, x.node), "header field %s is %s" % (k, h.get(k)))
            if not ends or not ls or not ls[-1] or ls[-1][0] != "DATA":
                ctx.violation("%s:header" % g.sid, where(f, x.node), "the header does not end with the DATA line")
        elif toks:
            ctx.violation("%s:header" % g.sid, where(f, x.node), "text before the first element")


def plain(ctx, cls):
    f = pick1(ctx, cls + "::add_point")
    g = Fx(ctx, f)
    for x in g.exits:
        t, toks = Text(g).stream(x.S.read(FILE))
        if t is not mk("init", FILE):
            undecided(ctx, g, "stream " + show(t)[:60])
            continue
        ls, ends = lines(toks)
        ctx.item("%s: one line per point" % g.sid)
        if len(ls) != 1 or not ends:
            ctx.violation("%s:line" % g.sid, where(f, x.node), "writes %d lines for a point%s" % (len(ls), "" if ends else ", the last one not ended"))
            continue
        coordinates_of(ctx, g, x, ls[0], lambda i: g.par(0, at(i)), "coordinates", "the line is the coordinates of the point")


def ignored(ctx, cls):
    for n in ("add_line", "add_polygon"):
        f = pick1(ctx, cls + "::" + n)
        g = Fx(ctx, f)
        ctx.item("%s: writes nothing" % g.sid)
        for x in g.exits:
            t = stripped(x.S.read(FILE))
            if t is not mk("init", FILE):
                if t.op == "ins":
                    ctx.violation("%s:text" % g.sid, where(f, x.node), "writes in a file that holds points only")
                else:
                    undecided(ctx, g, "stream")


def referenced(ctx, n, word):
    f = pick1(ctx, "OBJ_Map_Writer::" + n)
    g = loops(ctx, f)
    idx = (("o", "this"), "_vertexIndex")
    tx = Text(g)
    done = False
    for x in g.exits:
        for ch, (file, V), pcs in cases(g, x.S, [x.S.read(FILE), x.S.read(idx)]):
            base, toks = tx.stream(file)
            ls, ends = lines(toks)
            if not ends:
                ctx.violation("%s:end" % g.sid, where(f, x.node), "the last line is not ended")
                continue
            A = g.alg()
            v0 = A.sc(mk("init", idx))
            if base is mk("init", FILE):
                if not ls:
                    ctx.item("%s: nothing counted when nothing is written" % g.sid)
                    if not equal(A.sc(V), v0):
                        ctx.violation("%s:count" % g.sid, where(f, x.node), "the vertex counter is advanced with nothing written")
                    continue
                done |= straight(ctx, g, x, ls, V, v0, A, word)
            else:
                done |= repeated(ctx, g, x, base, ls, V, v0, word, tx)
    if not done:
        undecided(ctx, g, "no path that writes an element")


def straight(ctx, g, x, ls, V, v0, A, word):
    vs = [l for l in ls if l and l[0] == "v"]
    rs = [l for l in ls if l and l[0] == word]
    ctx.item("%s: one vertex and one reference to it" % g.sid)
    if len(ls) != len(vs) + len(rs) or len(vs) != 1 or len(rs) != 1:
        ctx.violation("%s:lines" % g.sid, where(g.fn, x.node), "writes %d vertices and %d references" % (len(vs), len(rs)))
        return True
    coordinates_of(ctx, g, x, vs[0][1:], lambda i: g.par(0, at(i)), "vertex", "the vertex is the point")
    refs = rs[0][1:]
    if len(refs) != 1 or not isinstance(refs[0], tuple) or refs[0][0] != "n":
        undecided(ctx, g, "reference")
        return True
    r, c = A.sc(refs[0][1]), A.sc(V)
    ctx.item("%s: the reference is the number of the vertex" % g.sid)
    if not equal(r, v0) and not unknown_atoms(r):
        ctx.violation("%s:reference" % g.sid, where(g.fn, x.node), "refers to vertex %r, the vertex written is number %r" % (r, v0))
    ctx.item("%s: the counter is advanced by the vertices written" % g.sid)
    if not equal(c, v0 + const(1)):
        ctx.violation("%s:count" % g.sid, where(g.fn, x.node), "the counter is advanced by %r for one vertex" % (c - v0))
    return True


def repeated(ctx, g, x, base, ls, V, v0, word, tx):
    """one loop that writes a vertex for each point, then the reference line"""
    key = base.a[0] if base.op == "phi" else None
    if key not in g.ends:
        undecided(ctx, g, "stream " + show(base)[:60])
        return True
    car = carried(g, key)
    S, F, node = g.ends[key]
    if stripped(car[FILE][1]) is not mk("init", FILE):
        undecided(ctx, g, "text before the vertices")
        return True
    A = g.alg()
    counters = []
    for loc, (h, first, nxt) in car.items():
        try:
            if equal(A.sc(first), v0):
                s = A.sc(nxt) - A.sc(h)
                if s.const() is not None:
                    counters.append((h, s.const()))
        except Shape:
            pass
    for ch, (file,), pcs in cases(g, S, [S.read(FILE)]):
        b, toks = tx.stream(file)
        if b is not base:
            undecided(ctx, g, "iteration")
            return True
        body, ends = lines(toks)
        vs = [l for l in body if l and l[0] == "v"]
        ctx.item("%s: one vertex per point" % g.sid)
        if not ends or len(body) != 1 or len(vs) != 1:
            ctx.violation("%s:vertex" % g.sid, where(g.fn, node), "an iteration writes %d vertices in %d lines" % (len(vs), len(body)))
            return True
        ws = vs[0][1:]
        el = None
        for w in ws:
            if isinstance(w, tuple) and w[0] == "n" and w[1].op == "init" and len(w[1].a[0]) > 2:
                el = w[1].a[0][:2]
        if el is None or el[0] != g.par(0).a[0][0]:
            undecided(ctx, g, "vertex")
            return True
        coordinates_of(ctx, g, x, ws, lambda i: mk("init", el + (at(i),)), "vertex", "each vertex is one point of the element")
    domain(ctx, g, key, el[1], word)
    ctx.item("%s: the counter is advanced by the vertices written" % g.sid)
    one = [h for h, s in counters if s == 1]
    if not one:
        ctx.violation("%s:count" % g.sid, where(g.fn, node), "the vertex counter is not advanced by one for each vertex")
        return True
    if V not in one:
        if V.op in ("init", "phi"):
            ctx.violation("%s:count" % g.sid, where(g.fn, x.node), "the vertex counter kept does not count the vertices written")
        else:
            c = A.sc(V)
            if not any(equal(c, A.sc(h)) for h in one):
                ctx.violation("%s:count" % g.sid, where(g.fn, x.node), "the vertex counter kept does not count the vertices written")
    # references
    ctx.item("%s: one line of references, in the order of the vertices" % g.sid)
    if len(ls) != 1 or not ls[0] or ls[0][0] != word:
        ctx.violation("%s:reference" % g.sid, where(g.fn, x.node), "the vertices are not followed by one '%s' line" % word)
        return True
    rest = ls[0][1:]
    if len(rest) != 1 or not isinstance(rest[0], tuple) or rest[0][0] != "s":
        undecided(ctx, g, "references")
        return True
    st = rest[0][1]
    loc = next((l for l, c in car.items() if c[0] is st), None)
    if loc is None:
        undecided(ctx, g, "references")
        return True
    first = "".join(w if isinstance(w, str) else "?" for w in tx.word(car[loc][1]))
    if first.strip():
        ctx.violation("%s:reference" % g.sid, where(g.fn, x.node), "the references do not start empty")
    for ch, (s,), pcs in cases(g, S, [S.read(loc)]):
        toks = tx.word(s)
        if not toks or toks[0] != ("s", st):
            if ("s", st) in toks:
                ctx.violation("%s:order" % g.sid, where(g.fn, node), "the references are not in the order of the vertices")
            else:
                ctx.violation("%s:reference" % g.sid, where(g.fn, node), "the references of the previous vertices are lost")
            continue
        ws, _ = lines(toks[1:])
        flat = [w for l in ws for w in l]
        sep = toks[1:] and isinstance(toks[1], str) and toks[1][:1] == " "
        if len(flat) != 1 or not isinstance(flat[0], tuple) or not sep:
            ctx.violation("%s:reference" % g.sid, where(g.fn, node), "an iteration does not add one reference")
            continue
        r = A.sc(flat[0][1])
        if not any(equal(r, A.sc(h)) for h in one):
            ctx.violation("%s:reference" % g.sid, where(g.fn, node), "refers to another vertex than the one just written")
    return True


def domain(ctx, g, key, e, word):
    """which points are visited"""
    ctx.item("%s: every point is written once, %s" % (g.sid, "in reverse order, but for the first, repeated at the end" if word == "f" else "in order"))
    S = g.ends[key][0]
    if isinstance(e, tuple) and e[1] in ("elem", "relem"):
        if (e[1] == "elem") != (word != "f"):
            ctx.violation("%s:order" % g.sid, where(g.fn, g.ends[key][2]), "the points are not written in the order asked for")
        elif word == "f":
            undecided(ctx, g, "points visited")
        return
    if not (isinstance(e, tuple) and e[1] in ("at", "[]") and isinstance(e[2], T)):
        return undecided(ctx, g, "points visited")
    car = carried(g, key)
    A = g.alg()
    j = A.sc(e[2])
    for loc, (h, first, nxt) in car.items():
        if h not in subterms(e[2]):
            continue
        step = (A.sc(nxt) - A.sc(h)).const()
        off = (j - A.sc(h)).const()
        if step is not None and step not in (1, -1):
            ctx.violation("%s:order" % g.sid, where(g.fn, g.ends[key][2]), "points are skipped")
            return
        if step is None or off is None:
            return undecided(ctx, g, "points visited")
        start = A.sc(first) + const(off)
        n = None
        for t in closure(g.E, [first] + list(S.facts)):
            if t.op == "call" and callname(t) == "size" and t.a[1] is g.par(0):
                n = A.sc(t)
        if n is None:
            return undecided(ctx, g, "points visited")
        cs = []
        A = g.alg()
        A.bind[h] = sym("position")
        for t, p in S.facts.items():
            if h in subterms(t) and t.op in ("<", "<=", "=="):
                c = cmp0(A.sc(t.a[0]) - A.sc(t.a[1]), t.op)
                cs.append(c if p else Not(c))
        cond = And(*cs)
        hs = A.sc(h)
        if word == "f":
            if step != -1 or not equal(start, n - const(1)):
                ctx.violation("%s:order" % g.sid, where(g.fn, g.ends[key][2]),
                              "the points are not visited backwards from the last one")
            decide(ctx, g, g.ends[key][2], "last", "the points visited go down to the second",
                   cond, ge(hs + const(off), const(1)), integral=True, side=ge(hs + const(off), const(0)))
        else:
            if step != 1 or not equal(start, const(0)):
                ctx.violation("%s:order" % g.sid, where(g.fn, g.ends[key][2]), "the points are not visited from the first one")
            decide(ctx, g, g.ends[key][2], "last", "the points visited go up to the last",
                   cond, lt(hs + const(off), n), integral=True)
        return
    undecided(ctx, g, "points visited")
