"""Quaternion-valued terms as four normal forms, up to a non zero factor (what matters for a rotation)."""
from formula import *


class NoQuat(Exception):
    pass


class Quat:
    """bind: term -> [w, x, y, z]. Half angles and spherical interpolations are atoms shared by equal arguments."""

    def __init__(self, A):
        self.A = A
        self.bind = {}
        self.slerps = []
        self.half = []

    def name(self, t):
        return str(t.a[0]).split("::")[-1].split("<")[0]

    def halves(self, a):
        """(cos, sin) of half the angle a"""
        for b, v in self.half:
            if equal(a, b):
                return v
            if equal(a.scale(-1), b):
                return v[0], v[1].scale(-1)
        if equal(a, const(0)):
            v = (const(1), const(0))
        else:
            k = len(self.half)
            v = (sym("hc%d_%d" % (id(self), k)), sym("hs%d_%d" % (id(self), k)))
        self.half.append((a, v))
        return v

    def slerp(self, a, s, b):
        for x, y, z, v in self.slerps:
            if (equal(s, y) and same(a, x) and same(b, z)) or (equal(const(1) - s, y) and same(a, z) and same(b, x)):
                return v
        k = len(self.slerps)
        v = [sym("slerp%d_%d_%d" % (id(self), k, i)) for i in range(4)]
        self.slerps.append((a, s, b, v))
        return v

    def ev(self, t):
        if t in self.bind:
            return self.bind[t]
        if t.op == "call":
            n = self.name(t)
            args = [x for x in t.a[1:] if isinstance(x, T) and x.op != "ty"]
            if n == "Identity" and not args:
                return [const(1), const(0), const(0), const(0)]
            if n == "normalized" and len(args) == 1:
                return self.ev(args[0])
            if n in ("inverse", "conjugate") and len(args) == 1:
                w, x, y, z = self.ev(args[0])
                return [w, x.scale(-1), y.scale(-1), z.scale(-1)]
            if n == "slerp" and len(args) == 3:
                return self.slerp(self.ev(args[0]), self.A.sc(args[1]), self.ev(args[2]))
            if n == "operator*" and len(args) == 2:
                return qmul(self.ev(args[0]), self.ev(args[1]))
        if t.op == "mod" and t.a[0] == "setIdentity":
            return [const(1), const(0), const(0), const(0)]
        if t.op == "mod" and t.a[0] == "normalize":
            return self.ev(t.a[1])
        if t.op == "*" and len(t.a) == 2:
            return qmul(self.ev(t.a[0]), self.ev(t.a[1]))
        if t.op == "new":
            n = str(t.a[0]).split("::")[-1].split("<")[0]
            args = [x for x in t.a[1:] if isinstance(x, T)]
            if n == "AngleAxis" and len(args) == 2:
                c, s = self.halves(self.A.sc(args[0]))
                u = self.A.mat(args[1])
                return [c] + [s * x for x in u.e]
            if n == "Quaternion" and len(args) == 4:
                return [self.A.sc(x) for x in args]
            if n == "Quaternion" and len(args) == 1:
                return self.ev(args[0])
        raise NoQuat(t)


def qmul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return [w * p - x * q - y * r - z * s, w * q + x * p + y * s - z * r, w * r - x * s + y * p + z * q, w * s + x * r - y * q + z * p]


def same(a, b):
    """the same rotation: one is a multiple of the other"""
    return all(equal(a[i] * b[j], a[j] * b[i]) for i in range(4) for j in range(i))


def rotation(q):
    """the rotation matrix of a quaternion of any length"""
    w, x, y, z = q
    s = w * w + x * x + y * y + z * z
    t = const(2)
    m = [w * w + x * x - y * y - z * z, t * (x * y - w * z), t * (x * z + w * y),
         t * (x * y + w * z), w * w - x * x + y * y - z * z, t * (y * z - w * x),
         t * (x * z - w * y), t * (y * z + w * x), w * w - x * x - y * y + z * z]
    return M(3, 3, [q / s for q in m])
