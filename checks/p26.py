RULE = """
Frames of reference, by type-based dataflow over every function. The frame of an expression (world, camera, screen) comes from the
coordinate type it was declared with, and survives what hides the type: conversions to plain vectors, temporaries, local copies,
blocks, scaling and sums. Every construction, assignment, sum, difference, scalar product and product by a transition matrix is an
obligation: the frames that meet have to be the same, and a matrix is applied to the frame it starts from.
"""
import itertools
import os
import re
import subprocess
import tempfile
from facts import base_flags, REPO

W, C, S = "world", "camera", "screen"
FRAME = {"WorldCoordinate": W, "WorldPolygon": W, "WorldCoordinateCovariance": W, "PlaneWorldCoordinates": W,
         "InverseDepthWorldPoint": W,
         "CameraCoordinate": C, "CameraPolygon": C, "CameraCoordinateCovariance": C, "PlaneCameraCoordinates": C,
         "ScreenCoordinate": S, "ScreenCoordinate2D": S, "ScreenCoordinateCovariance": S, "ScreenCoordinate2DCovariance": S,
         "CameraCoordinate2D": "normalised camera"}
CHANGE = {"WorldToCameraMatrix": (W, C), "CameraToWorldMatrix": (C, W), "PlaneWorldToCameraMatrix": (W, C), "PlaneCameraToWorldMatrix": (C, W)}
KEEP = {"head", "tail", "segment", "topRows", "bottomRows", "normalized", "homogeneous", "hnormalized", "base", "eval", "array", "matrix",
        "transpose", "derived", "noalias", "block", "col", "row", "topLeftCorner", "get_normal", "get_center",
        "get_parametrization", "get_vector", "cwiseProduct", "cross", "operator*", "value", "front", "back", "at", "operator[]"}


def frame(t):
    t = re.sub(r"\b(const|volatile|struct|class)\b|[&*]", "", t or "").strip()
    return FRAME.get(t.split("::")[-1]) if "<" not in t else None


def change(t):
    t = re.sub(r"\b(const|volatile|struct|class)\b|[&*]", "", t or "").strip()
    return CHANGE.get(t.split("::")[-1]) if "<" not in t else None


def last(qn):
    return re.sub(r"<.*>", "", qn or "").split("::")[-1]


class Walk:
    def __init__(self, ctx, fn):
        self.ctx, self.fn, self.env, self.menv, self.n = ctx, fn, {}, {}, 0
        self.written = set()
        self.assigned(fn.raw.get("body"))

    def assigned(self, e):
        """local variables that get another value after their declaration"""
        if isinstance(e, list):
            for y in e:
                self.assigned(y)
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "asg":
            self.target(e["a"][0])
        elif k == "un" and e.get("op") in ("&", "++", "--"):
            self.target(e["e"])
        elif k in ("call", "ctor"):
            if e.get("op") in ("=", "+=", "-=", "*=", "/=", "<<"):
                self.target(e.get("obj") or (e.get("a") or [None])[0])
            elif e.get("obj") is not None and not e.get("cst") and not e.get("stat"):
                self.target(e["obj"])
            for m, y in zip(e.get("pp", ""), e.get("a", [])):
                if m in "rp":
                    self.target(y)
        for v in e.values():
            self.assigned(v)

    def target(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "un", "mem", "call"):
            e = e.get("e") or e.get("obj")
        if isinstance(e, dict) and e.get("k") == "ref":
            self.written.add(e.get("d"))

    def meet(self, e, a, b, what):
        """the frames a and b have to be the same"""
        if a is None or b is None:
            return
        self.n += 1
        self.ctx.item("%s: %s, line %s: %s and %s" % (self.fn.qn.replace("rgbd_slam::", ""), what, e.get("l"), a, b))
        if a != b:
            self.ctx.violation("%s:%s:%s:%s" % (self.fn.qn.replace("rgbd_slam::", ""), what, a, b), "%s:%s (%s)" % (self.file(), e.get("l"), self.fn.qn),
                               "a %s quantity meets a %s quantity in a %s" % (a, b, what))

    def file(self):
        return self.fn.file if hasattr(self.fn, "file") else "?"

    def scalar(self, e):
        return (e.get("t") or "") in ("double", "float", "int", "const double", "unsigned int", "const float", "const int", "Scalar")

    def mx(self, e):
        """(from, to) of a matrix that changes the frame"""
        while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
            e = e["e"]
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k in ("ref", "mem", "this") and change(e.get("t")):
            return change(e.get("t"))
        if k == "ref":
            return self.menv.get(e.get("d"))
        if k == "un" and e.get("op") == "*":
            return self.mx(e["e"])
        if k == "ctor":
            return change(e.get("t")) or (self.mx(e["a"][0]) if len(e.get("a", [])) == 1 else None)
        if k == "call":
            if change(e.get("t")):
                return change(e.get("t"))
            name = last(e.get("qn"))
            m = self.mx(e.get("obj"))
            if m and name == "rotation":
                return m
            if m and name in ("inverse", "transpose"):
                # the transpose of the whole matrix has no meaning
                r = self.mx_is_rotation(e["obj"])
                return (m[1], m[0]) if name == "inverse" or r else None
            if e.get("op") == "*":
                ops = ([e["obj"]] if e.get("obj") else []) + e.get("a", [])
                if len(ops) == 2:
                    a, b = self.mx(ops[0]), self.mx(ops[1])
                    if a and b:
                        return (b[0], a[1])
        return None

    def mx_is_rotation(self, e):
        while isinstance(e, dict) and e.get("k") == "cast":
            e = e["e"]
        return isinstance(e, dict) and (e.get("k") == "call" and last(e.get("qn")) == "rotation" or
                                        e.get("k") == "ref" and not change(e.get("t")))

    def x(self, e):
        """frame of the expression; the obligations inside it are examined on the way"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ref":
            return frame(e.get("t")) or self.env.get(e.get("d"))
        if k == "this":
            return frame(e.get("t"))
        if k == "mem":
            f = self.x(e.get("e"))
            # the vectors that make up a framed object are in its frame
            return frame(e.get("t")) or (f if e.get("n") == "second" or re.search(r"Matrix<double, 3, 1\b|\bvector3\b", e.get("t") or "") else None)
        if k in ("cast",):
            return self.x(e["e"]) or frame(e.get("t"))
        if k == "un":
            f = self.x(e["e"])
            return f if e.get("op") in ("-", "*", "&", "+") and not self.scalar(e) else None
        if k == "cond":
            fs = [self.x(y) for y in e["a"]]
            if len(fs) == 3 and fs[1] == fs[2]:
                return fs[1]
            return None
        if k in ("bin", "asg"):
            fs = [self.x(y) for y in e["a"]]
            if k == "asg" and not self.scalar(e):
                self.meet(e, fs[0], fs[1], "assignment")
                return fs[0]
            return None
        if k == "ctor":
            fs = [self.x(y) for y in e.get("a", [])]
            own = frame(e.get("t"))
            if len(fs) == 1 and not self.scalar(e["a"][0]):
                if own:
                    self.meet(e, fs[0], own, "construction")
                return own or fs[0] if not change(e.get("t")) else None
            return own
        if k == "call":
            return self.call(e)
        if k == "lambda":
            return None
        self.children(e)
        return frame(e.get("t"))

    def call(self, e):
        obj = e.get("obj")
        args = e.get("a", [])
        name = last(e.get("qn"))
        own = frame(e.get("t"))
        fo = self.x(obj) if obj else None
        fs = [self.x(y) for y in args]
        op = e.get("op")
        if op:
            ops = ([obj] if obj is not None else []) + args
            fr = ([fo] if obj is not None else []) + fs
            if op in ("=", "+=", "-=") and len(ops) == 2:
                self.meet(e, fr[0], fr[1], "assignment")
                return fr[0]
            if op in ("+", "-") and len(ops) == 2:
                self.meet(e, fr[0], fr[1], "sum")
                return fr[0] or fr[1]
            if op in ("==", "!=") and len(ops) == 2:
                self.meet(e, fr[0], fr[1], "comparison")
                return None
            if op == "*" and len(ops) == 2:
                m = self.mx(ops[0])
                if m:
                    m2 = self.mx(ops[1])
                    self.meet(e, m2[1] if m2 else fr[1], m[0], "change of frame")
                    return None if m2 else m[1]
                if self.mx(ops[1]) and fr[0]:
                    return fr[0]
                sc = [self.scalar(y) for y in ops]
                if sc[0]:
                    return fr[1]
                if sc[1]:
                    return fr[0]
                return own
            if op == "/" and len(ops) == 2:
                return fr[0]
            if op in ("-", "*", "->", "&") and len(ops) == 1:
                return own or fr[0]
            return own
        if name in ("dot", "cross") and obj is not None and fs:
            self.meet(e, fo, fs[0], "product")
            return (fo or fs[0]) if name == "cross" else None
        if name == "translation" and self.mx(obj):
            return self.mx(obj)[1]
        if name == "homogeneous" and fo == "normalised camera":
            return C            # on the plane at distance one
        if "::PlaneCoordinates::" in (e.get("qn") or ""):
            return fo if not self.scalar(e) else None      # no frame of its own
        if own:
            return own
        if name in ("move", "forward", "as_const") and len(fs) == 1:
            return fs[0]
        if name in KEEP and fo and not self.scalar(e):
            return fo
        return None

    def children(self, e):
        for v in e.values():
            if isinstance(v, dict):
                self.node(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict):
                        self.node(y)

    def node(self, e):
        k = e.get("k")
        if k == "decl":
            for v in e["a"]:
                i = v.get("i") or v.get("init") or v.get("e")
                if isinstance(i, dict):
                    f = self.x(i)
                    own = frame(v.get("t"))
                    if own is None and not self.scalar(v) and v.get("d") not in self.written:
                        if f is not None:
                            self.env[v.get("d")] = f
                        m = self.mx(i)
                        if m:
                            self.menv[v.get("d")] = m
            return
        if k in ("block", "if", "for", "while", "do", "rfor", "switch", "case", "default", "try", "expr", "return", "throw"):
            return self.children(e)
        if k is None:
            return self.children(e)
        self.x(e)


HEADERS = ("coordinates/point_coordinates.hpp", "coordinates/plane_coordinates.hpp", "coordinates/polygon_coordinates.hpp",
           "coordinates/inverse_depth_coordinates.hpp", "types.hpp")


def witnesses(ctx):
    """a program that takes one matrix or plane for another does not build"""
    groups = (("WorldToCameraMatrix", "CameraToWorldMatrix", "PlaneWorldToCameraMatrix", "PlaneCameraToWorldMatrix"),
              ("PlaneCameraCoordinates", "PlaneWorldCoordinates"))
    lines = ["#include <type_traits>"] + ['#include "%s"' % h for h in HEADERS if os.path.exists(os.path.join(REPO, "src", h))]
    pairs = {}
    for g in groups:
        for a, b in itertools.permutations(g, 2):
            for trait, args, what in (("is_convertible_v", (a, b), "passed for"), ("is_assignable_v", (b + "&", a), "assigned to")):
                lines.append("static_assert(not std::%s<%s>);" % (trait, ", ".join("rgbd_slam::" + x for x in args)))
                pairs[len(lines)] = "a %s can be %s a %s" % (a, what, b)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "witness.cpp")
        open(f, "w").write("\n".join(lines) + "\n")
        q = subprocess.run(["clang++"] + base_flags() + ["-I" + os.path.join(REPO, "src"), "-fsyntax-only", f], capture_output=True, text=True)
    bad = {int(m.group(1)): m.group(0) for m in re.finditer(r"witness\.cpp:(\d+):\d+: error: static assertion failed", q.stderr)}
    other = [l for l in q.stderr.splitlines() if "error:" in l and "static assertion failed" not in l]
    for n, t in pairs.items():
        ctx.item("witness: %s does not build" % t)
        if n in bad and not other:
            ctx.violation("witness:%s" % t, "src/types.hpp, src/coordinates (conversion)", t + " with no transformation")
    if other:
        ctx.count("undecided")
        ctx.notes.append("undecided: witnesses: %s" % other[0][-120:])


def run(ctx):
    ctx.group(flows)
    ctx.group(witnesses)
    ctx.assume("A scalar taken out of a coordinate has no frame: the depth of a screen point is that of its camera point.")


def flows(ctx):
    n = 0
    for f in ctx.prog.fns.values():
        if "rgbd_slam::" not in f.qn or not f.raw.get("body"):
            continue
        w = Walk(ctx, f)
        for i in f.raw.get("inits") or ():
            w.node(i)
        w.node(f.raw["body"])
        n += 1
    ctx.count("functions")
    ctx.notes.append("%d functions" % n)
