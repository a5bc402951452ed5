"""Algebraic normal forms of value numbers.

A value number (engine term) denoting a scalar or a small fixed-size matrix is rewritten to a quotient of two multivariate
polynomials with rational coefficients over atoms (initial values, square roots, sines, ... of normal forms, opaque
calls). Two values that are equal as real-valued expressions get cross products that cancel to the zero polynomial. This
is term rewriting on the data-flow facts: nothing is evaluated, no path is enumerated and no solver is called."""
from fractions import Fraction
import math
import re
from engine import T, mk, cval, num, subterms, project, show, showloc
from facts import AnalysisError


class Shape(Exception):
    """the value could not be given a matrix shape: the comparison is not possible"""


class ZeroDivision(Shape):
    """the code divides by a value that is identically zero"""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "key", "data")

    def __repr__(self):
        return aname(self)


_atoms = {}
_byid = []


def atom(kind, key, data=None):
    k = (kind, key)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id, a.kind, a.key, a.data = len(_byid), kind, key, data
        _atoms[k] = a
        _byid.append(a)
    return a


def aname(a):
    if a.kind == "t":
        return show(a.key)
    if a.kind == "sym":
        return str(a.key)
    if a.kind == "inv":
        return "inv#%d[%d,%d]" % a.key
    return "%s(%s)" % (a.kind, ",".join(p_str(x) if isinstance(x, dict) else str(x) for x in a.data))


# ---------------------------------------------------------------- polynomials
# dict monomial -> Fraction; monomial = tuple of (atom id, exponent), sorted
ONE = {(): Fraction(1)}
RULES = []     # (monomial dict, polynomial): extra rewriting rules (orthonormality, unit norm)


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a):
    return {((a.id, 1),): Fraction(1)}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def reducible(m):
    for k, e in m:
        if e >= 2 and _byid[k].kind in ("sqrt", "sin", "abs", "sign"):
            return True
    if RULES:
        d = dict(m)
        for r, _ in RULES:
            if all(d.get(k, 0) >= e for k, e in r):
                return True
    return False


def p_reduce(p):
    """applies r^2 -> radicand, sin^2 -> 1 - cos^2, |x|^2 -> x^2 and the extra rules until none applies"""
    while True:
        bad = [m for m in p if reducible(m)]
        if not bad:
            return p
        for m in bad:
            c = p.pop(m)
            p = p_add(p, p_scale(reduce_mono(m), c))


def reduce_mono(m):
    for i, (k, e) in enumerate(m):
        a = _byid[k]
        if e >= 2 and a.kind in ("sqrt", "sin", "abs", "sign"):
            rest = m[:i] + (((k, e - 2),) if e > 2 else ()) + m[i + 1:]
            if a.kind == "sqrt":
                q = a.key_poly if False else dict(a.data[0])
            elif a.kind == "sin":
                c = atom("cos", a.key, a.data)
                q = {(): Fraction(1), ((c.id, 2),): Fraction(-1)}
            elif a.kind == "abs":
                q = p_mul(dict(a.data[0]), dict(a.data[0]))
            else:
                q = ONE
            return p_mul({rest: Fraction(1)}, q)
    d = dict(m)
    for r, q in RULES:
        if all(d.get(k, 0) >= e for k, e in r):
            for k, e in r:
                d[k] -= e
                if not d[k]:
                    del d[k]
            return p_mul({tuple(sorted(d.items())): Fraction(1)}, q)
    return {m: Fraction(1)}


def p_scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


MAXTERMS = 400000


def p_mul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > MAXTERMS:
            raise Shape("the expression is too large to normalise")
    return p_reduce(r)


def p_str(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda x: str(x[0]))[:12]:
        s = "*".join(repr(_byid[k]) + ("^%d" % e if e > 1 else "") for k, e in m)
        out.append(("%s*%s" % (c, s)) if s and c != 1 else (s or str(c)))
    return " + ".join(out) + (" + ..." if len(p) > 12 else "")


# ---------------------------------------------------------------- rational functions
class R:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, (d if d is not None else ONE)
        self.norm()

    def norm(self):
        if not self.n:
            self.d = ONE
            return
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if m == ():
                if c != 1:
                    self.n = p_scale(self.n, 1 / c)
                    self.d = ONE
                return
        # cancel the monomial content and the leading coefficient
        g = None
        for p in (self.n, self.d):
            for m in p:
                dm = dict(m)
                g = dm if g is None else {k: min(e, dm[k]) for k, e in g.items() if k in dm}
                if not g:
                    break
        if g:
            def div(p):
                r = {}
                for m, c in p.items():
                    r[tuple((k, e - g.get(k, 0)) for k, e in m if e - g.get(k, 0))] = c
                return r
            self.n, self.d = div(self.n), div(self.d)
        lead = self.d[min(self.d)]
        if lead != 1:
            self.n, self.d = p_scale(self.n, 1 / lead), p_scale(self.d, 1 / lead)
        if len(self.n) == len(self.d) and self.n.keys() == self.d.keys():
            m0 = min(self.d)
            q = self.n[m0] / self.d[m0]
            if all(self.n[m] == q * self.d[m] for m in self.d):
                self.n, self.d = p_const(q), ONE

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def __add__(self, o):
        if self.d == o.d:
            return R(p_add(self.n, o.n), self.d)
        return R(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        return R(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise ZeroDivision("division by a value that is zero")
        return R(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def scale(self, c):
        return R(p_scale(self.n, Fraction(c)), self.d)

    def zero(self):
        return not self.n

    def const(self):
        if not self.n:
            return Fraction(0)
        if self.d == ONE and len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None

    def __repr__(self):
        s = p_str(self.n)
        return s if self.d == ONE else "(%s)/(%s)" % (s, p_str(self.d))

    def atoms(self):
        return {_byid[k] for p in (self.n, self.d) for m in p for k, _ in m}


def const(c):
    if isinstance(c, float):
        c = Fraction(repr(c))
    return R(p_const(c))


def sym(name):
    return R(p_atom(atom("sym", name)))


ZERO_R = None


def equal(a, b):
    return (a - b).zero() or not p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)


def sign_of(p):
    """canonical sign of a polynomial: the coefficient of its least monomial"""
    return 1 if p[min(p)] > 0 else -1


def sqrt(x):
    c = x.const()
    if c is not None:
        if c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return const(Fraction(a, b))
    q = p_mul(x.n, x.d)
    # extract constant square content: sqrt(k^2 q) = k sqrt(q) is not needed; keep the radicand as it is
    if not q:
        return const(0)
    a = atom("sqrt", frozenset(q.items()), (q,))
    return R(p_atom(a), x.d)


def absv(x):
    c = x.const()
    if c is not None:
        return const(abs(c))
    n, d = x.n, x.d
    if sign_of(n) < 0:
        n = p_scale(n, -1)
    if d != ONE and d != {}:
        return R(p_atom(mkabs(n))) / R(p_atom(mkabs(d))) if not single_square(d) else R(p_atom(mkabs(n)), d)
    return R(p_atom(mkabs(n)))


def single_square(d):
    if len(d) != 1:
        return False
    (m, c), = d.items()
    return c > 0 and all(e % 2 == 0 or _byid[k].kind in ("sqrt", "abs") for k, e in m)


def mkabs(n):
    if sign_of(n) < 0:
        n = p_scale(n, -1)
    return atom("abs", frozenset(n.items()), (n,))


def extremum(kind, *vs):
    ca = [v.const() for v in vs]
    if all(c is not None for c in ca):
        return const(max(ca) if kind == "max" else min(ca))
    ks = {}
    for v in vs:
        ks[v.key()] = v
    if len(ks) == 1:
        return vs[0]
    ks = sorted(ks.items(), key=lambda z: repr(z[1]))
    return R(p_atom(atom(kind, tuple(z[0] for z in ks), tuple(z[1] for z in ks))))


def fmax(*vs):
    return extremum("max", *vs)


def fmin(*vs):
    return extremum("min", *vs)


def fn1(name, x):
    """sin, cos and other functions of one argument"""
    if name in ("sin", "cos", "tan"):
        if x.zero():
            return const(0 if name != "cos" else 1)
        # sin/cos of an arc tangent
        if x.d == ONE and len(x.n) == 1:
            (m, c), = x.n.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and _byid[m[0][0]].kind == "atan2":
                yy, xx = _byid[m[0][0]].data
                r = sqrt(xx * xx + yy * yy)
                if name == "sin":
                    return (yy / r).scale(c)
                if name == "cos":
                    return xx / r
        s = 1
        if sign_of(x.n) < 0:
            x = x.scale(-1)
            s = -1
        if name == "tan":
            return fn1("sin", x).scale(s) / fn1("cos", x)
        a = R(p_atom(atom(name, x.key(), (x,))))
        return a.scale(s) if name == "sin" else a
    if name in ("floor", "ceil") and x.const() is not None:
        return const(getattr(math, name)(x.const()))
    if name == "acos" and len(x.d) == 1:
        (m, c), = x.d.items()
        if c > 0 and len(m) == 1 and m[0][1] == 1 and _byid[m[0][0]].kind == "sqrt":
            n, d = R(x.n), R(x.d)
            return atan2(sqrt(d * d - n * n), n)
    return R(p_atom(atom(name, x.key(), (x,))))


def atan2(y, x):
    return R(p_atom(atom("atan2", (y.key(), x.key()), (y, x))))


def power(x, e):
    e = Fraction(e)
    if e.denominator == 1:
        k = int(e)
        r = const(1)
        for _ in range(abs(k)):
            r = r * x
        return const(1) / r if k < 0 else r
    if e.denominator == 2:
        return power(sqrt(x), e.numerator)
    return None


# ---------------------------------------------------------------- derivatives
def d_poly(p, v):
    out = const(0)
    for m, c in p.items():
        for i, (k, e) in enumerate(m):
            da = d_atom(_byid[k], v)
            if da.zero():
                continue
            rest = m[:i] + (((k, e - 1),) if e > 1 else ()) + m[i + 1:]
            out = out + R({rest: c * e}) * da
    return out


_da = {}


def d_atom(a, v):
    if a is v:
        return const(1)
    k = (a.id, v.id, len(RULES))
    r = _da.get(k)
    if r is None:
        r = _da[k] = _d_atom(a, v)
    return r


def _d_atom(a, v):
    if a.kind in ("t", "sym"):
        return const(0)
    if a.kind == "sqrt":
        return d_poly(a.data[0], v) / R(p_scale(p_atom(a), 2))
    if a.kind == "abs":
        q = d_poly(a.data[0], v)
        return q * R(a.data[0]) / R(p_atom(a)) if not q.zero() else q
    if a.kind == "sin":
        return R(p_atom(atom("cos", a.key, a.data))) * diff(a.data[0], v)
    if a.kind == "cos":
        return (R(p_atom(atom("sin", a.key, a.data))) * diff(a.data[0], v)).scale(-1)
    if a.kind == "atan2":
        y, x = a.data
        dy, dx = diff(y, v), diff(x, v)
        if dy.zero() and dx.zero():
            return const(0)
        return (x * dy - y * dx) / (x * x + y * y)
    if a.data and any(v in deps(x) for x in a.data):
        raise Shape("no derivative rule for %s" % a.kind)
    return const(0)


def deps(x, seen=None):
    seen = set() if seen is None else seen
    for a in x.atoms():
        if a not in seen:
            seen.add(a)
            for y in (a.data or ()):
                if isinstance(y, R):
                    deps(y, seen)
                elif isinstance(y, dict):
                    deps(R(y), seen)
    return seen


def diff(x, v):
    dn = d_poly(x.n, v)
    if x.d == ONE:
        return dn
    dd = d_poly(x.d, v)
    return (dn * R(x.d) - R(x.n) * dd) / R(p_mul(x.d, x.d))


def substitute(x, mp):
    """replaces symbols by normal forms (square roots are rebuilt)"""
    def poly(p):
        out = const(0)
        for m, c in p.items():
            t = const(c)
            for k, e in m:
                a = _byid[k]
                if a in mp:
                    b = mp[a]
                elif a.kind == "sqrt":
                    b = sqrt(poly(a.data[0]))
                else:
                    b = R(p_atom(a))
                t = t * power(b, e)
            out = out + t
        return out
    return poly(x.n) / poly(x.d)


# ---------------------------------------------------------------- matrices
class M:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, list(e)

    def at(self, i, j=0):
        return self.e[i * self.c + j]

    def key(self):
        return (self.r, self.c) + tuple(x.key() for x in self.e)

    def T(self):
        return M(self.c, self.r, [self.at(j, i) for i in range(self.c) for j in range(self.r)])

    def __add__(self, o):
        self.same(o)
        return M(self.r, self.c, [a + b for a, b in zip(self.e, o.e)])

    def __sub__(self, o):
        self.same(o)
        return M(self.r, self.c, [a - b for a, b in zip(self.e, o.e)])

    def same(self, o):
        if (self.r, self.c) != (o.r, o.c):
            raise Shape("shapes %dx%d and %dx%d do not agree" % (self.r, self.c, o.r, o.c))

    def mul(self, o):
        if self.c != o.r:
            if (self.r, self.c) == (1, 1):
                return o.map(lambda x: self.e[0] * x)
            if (o.r, o.c) == (1, 1):
                return self.map(lambda x: x * o.e[0])
            if (self.r, self.c) == (o.r, o.c):      # arrays: element by element
                return M(self.r, self.c, [a * b for a, b in zip(self.e, o.e)])
            raise Shape("shapes %dx%d and %dx%d cannot be multiplied" % (self.r, self.c, o.r, o.c))
        out = []
        for i in range(self.r):
            for j in range(o.c):
                s = const(0)
                for k in range(self.c):
                    a, b = self.at(i, k), o.at(k, j)
                    if a.n and b.n:
                        s = s + a * b
                out.append(s)
        return M(self.r, o.c, out)

    def map(self, f):
        return M(self.r, self.c, [f(x) for x in self.e])

    def block(self, i, j, h, w):
        if i < 0 or j < 0 or i + h > self.r or j + w > self.c:
            raise Shape("block outside of the matrix")
        return M(h, w, [self.at(i + a, j + b) for a in range(h) for b in range(w)])

    def put(self, i, j, o):
        e = list(self.e)
        if i < 0 or j < 0 or i + o.r > self.r or j + o.c > self.c:
            raise Shape("block outside of the matrix")
        for a in range(o.r):
            for b in range(o.c):
                e[(i + a) * self.c + j + b] = o.at(a, b)
        return M(self.r, self.c, e)

    def sym(self):
        return self.r == self.c and all(equal(self.at(i, j), self.at(j, i)) for i in range(self.r) for j in range(i))

    def __repr__(self):
        return "[" + "; ".join(", ".join(repr(self.at(i, j)) for j in range(self.c)) for i in range(self.r)) + "]"


def identity(n, m=None):
    m = n if m is None else m
    return M(n, m, [const(1 if i == j else 0) for i in range(n) for j in range(m)])


def zeros(n, m):
    return M(n, m, [const(0)] * (n * m))


def mequal(a, b):
    if isinstance(a, R) and isinstance(b, M) and (b.r, b.c) == (1, 1):
        b = b.e[0]
    if isinstance(b, R) and isinstance(a, M) and (a.r, a.c) == (1, 1):
        a = a.e[0]
    if isinstance(a, R) != isinstance(b, R):
        return False
    if isinstance(a, R):
        return equal(a, b)
    return (a.r, a.c) == (b.r, b.c) and all(equal(x, y) for x, y in zip(a.e, b.e))


def first_diff(a, b):
    if isinstance(a, R) or isinstance(b, R) or (a.r, a.c) != (b.r, b.c):
        return ""
    for i in range(a.r):
        for j in range(a.c):
            if not equal(a.at(i, j), b.at(i, j)):
                return "entry (%d,%d)" % (i, j)
    return ""


def norm2(v):
    s = const(0)
    for x in v.e:
        s = s + x * x
    return s


def cross(a, b):
    x, y = a.e, b.e
    return M(a.r, a.c, [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


def det(m):
    if m.r == 1:
        return m.e[0]
    s = const(0)
    for j in range(m.c):
        if m.at(0, j).zero():
            continue
        sub = M(m.r - 1, m.c - 1, [m.at(i, k) for i in range(1, m.r) for k in range(m.c) if k != j])
        t = m.at(0, j) * det(sub)
        s = s + (t if j % 2 == 0 else t.scale(-1))
    return s


_invs = {}


def inverse(m):
    """explicit for small sparse matrices, otherwise a matrix of atoms determined by the normal form of the argument"""
    if m.r != m.c:
        raise Shape("inverse of a rectangular matrix")
    nz = sum(1 for x in m.e if not x.zero())
    if m.r == 1:
        return M(1, 1, [const(1) / m.e[0]])
    if m.r <= 3 and nz <= 6 and all(len(x.n) <= 4 for x in m.e):
        d = det(m)
        if not d.zero():
            out = []
            for i in range(m.r):
                for j in range(m.r):
                    sub = M(m.r - 1, m.r - 1, [m.at(a, b) for a in range(m.r) for b in range(m.r)
                                               if a != j and b != i])
                    c = det(sub) if m.r > 1 else const(1)
                    out.append((c if (i + j) % 2 == 0 else c.scale(-1)) / d)
            return M(m.r, m.r, out)
    k = m.key()
    r = _invs.get(k)
    if r is None:
        n = len(_invs)
        s = m.sym()
        r = M(m.r, m.r, [R(p_atom(atom("inv", (n, min(i, j), max(i, j)) if s else (n, i, j))))
                         for i in range(m.r) for j in range(m.r)])
        _invs[k] = r
        _invs.setdefault(("arg", r.key()), m)
    a = _invs.get(("arg", k))
    return a if a is not None else r


# ---------------------------------------------------------------- types and shapes
_mat = re.compile(r"Eigen::Matrix<(?:double|float|int), (-?\d+), (-?\d+)")
_scal = {"double", "float", "int", "unsigned int", "unsigned long", "long", "bool", "size_t", "uint", "unsigned char",
         "unsigned short", "short", "char", "uchar", "uint8_t", "const double"}


def shape_of(prog, t, d=0):
    """(rows, columns) of a matrix type, None for a scalar type, False when unknown"""
    t = t.replace("const ", "").strip().rstrip("&* ").strip()
    if t in _scal:
        return None
    m = _mat.match(t)
    if m:
        r, c = int(m.group(1)), int(m.group(2))
        return (r, c) if r > 0 and c > 0 else False
    if t.startswith("Eigen::Quaternion<"):
        return (4, 1)
    if t.startswith("Eigen::Block<"):
        m = re.search(r", (\d+), (\d+), (?:true|false)>$", t)
        return (int(m.group(1)), int(m.group(2))) if m else False
    if d > 6:
        return False
    r = prog.records.get(t)
    if r is None:
        for x in prog.records.values():
            if x["qn"] == t or x["t"] == t:
                r = x
                break
    if r is not None:
        for b in r["bases"]:
            s = shape_of(prog, b, d + 1)
            if s is not False:
                return s
    return False


def field_type(prog, t, f, d=0):
    t = t.replace("const ", "").strip().rstrip("&* ").strip()
    r = prog.records.get(t)
    if r is None:
        for x in prog.records.values():
            if x["qn"] == t or x["t"] == t:
                r = x
                break
    if r is None or d > 6:
        return None
    for x in r["fields"]:
        if x["n"] == f:
            return x["t"]
    for b in r["bases"]:
        y = field_type(prog, b, f, d + 1)
        if y:
            return y
    return None


_blk = re.compile(r"^(\w+)(?:<(.*)>)?$")
SYMVIEW = ("selfadjointView",)
INVS = ("inverse", "pseudoInverse")


CHOICE = {}     # join -> incoming branch, set while a comparison goes through the branches one by one
PENDING = []    # joins at which the branches deliver different values
_version = [0]


def choose(c):
    CHOICE.clear()
    CHOICE.update(c)
    del PENDING[:]
    _version[0] += 1


def unknown_atoms(x, seen=None, out=None):
    """atoms standing for computations the normal form does not understand"""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if isinstance(x, M):
        for y in x.e:
            unknown_atoms(y, seen, out)
        return out
    for a in x.atoms():
        if a.id in seen:
            continue
        seen.add(a.id)
        if a.kind == "t" and a.key.op != "init" or a.kind.startswith("fn:"):
            out.add(a)
        d = a.data
        if isinstance(d, (R, M)):
            d = (d,)
        if isinstance(d, (tuple, list)):
            for y in d:
                if isinstance(y, dict):
                    y = R(y)
                if isinstance(y, (R, M)):
                    unknown_atoms(y, seen, out)
    return out


class Alg:
    """evaluator of terms to normal forms for one analysed function"""

    def __init__(self, prog, fn=None, engine=None, types=None, symmetric=(), sym_pred=None, positive=()):
        self.prog, self.fn, self.E = prog, fn, engine
        self.types = dict(types or {})      # root location element -> type
        if fn is not None:
            for p in fn.params:
                self.types.setdefault(("o", "param", p["n"] or str(p["d"])), p["t"])
            if fn.cls:
                self.types.setdefault(("o", "this"), fn.raw.get("clst") or fn.cls)
        self.symmetric = set(symmetric)
        self.memo = {}
        self.version = _version[0]
        self.cuts = {}
        self.hook = None                    # function of a term to its normal form or None, set by a check
        self.bind = {}                      # term -> normal form, set by a check
        self.ints = None                    # ids of the atoms that are integers and not negative, set by a check

    # ---- types of locations
    def loc_shape(self, loc):
        root = loc[0]
        if isinstance(root, tuple) and root[0] == "g":
            t = None
            g = self.prog.globals.get(root[1]) if hasattr(self.prog, "globals") else None
            if g:
                t = g.get("t")
        else:
            t = self.types.get(root)
        if t is None:
            return False
        for e in loc[1:]:
            if isinstance(e, tuple):
                return False
            t = field_type(self.prog, t, e)
            if t is None:
                return False
        return shape_of(self.prog, t)

    def cut(self, m, name, sym=None):
        """gives the matrix a name: later occurrences of the same normal form are that name"""
        s = m.sym() if sym is None else sym
        r = M(m.r, m.c, [R(p_atom(atom("sym", "%s[%d,%d]" % ((name, min(i, j), max(i, j)) if s else (name, i, j)))))
                         for i in range(m.r) for j in range(m.c)])
        self.cuts[m.key()] = r
        return r

    def symbolic(self, t, shape):
        if shape is None:
            return R(p_atom(atom("t", t)))
        r, c = shape
        s = t in self.symmetric and r == c
        out = []
        for i in range(r):
            for j in range(c):
                a, b = (min(i, j), max(i, j)) if s else (i, j)
                el = ("i", "at", num(a)) if c == 1 else ("i", "at", num(a), num(b))
                out.append(R(p_atom(atom("t", project(t, el)))))
        return M(r, c, out)

    # ---- evaluation
    def ev(self, t):
        b = self.bind.get(t)
        if b is not None:
            return b
        if self.hook is not None:
            b = self.hook(t)
            if b is not None:
                return b
        if self.version != _version[0]:
            self.memo = {}
            self.version = _version[0]
        v = self.memo.get(t)
        if v is None:
            v = self._ev(t)
            if isinstance(v, M):
                if self.cuts:
                    v = self.cuts.get(v.key(), v)
                if (v.r, v.c) == (1, 1):
                    v = v.e[0]
            self.memo[t] = v
        return v

    def sc(self, t):
        v = self.ev(t)
        if isinstance(v, M):
            raise Shape("a scalar was expected: %s" % show(t))
        return v

    def mat(self, t, shape=None):
        v = self.ev(t)
        if isinstance(v, R):
            return M(1, 1, [v])
        return v

    def opaque(self, t):
        return R(p_atom(atom("t", t)))

    def _ev(self, t):
        op = t.op
        if op == "c":
            if t.a[0] == "n":
                return const(t.a[1])
            if t.a[0] == "b":
                return const(1 if t.a[1] else 0)
            return self.opaque(t)
        if op == "init":
            loc = t.a[0]
            if len(loc) > 1 and isinstance(loc[-1], tuple):
                # part of a matrix
                for i in range(len(loc) - 1, 0, -1):
                    s = self.loc_shape(loc[:i])
                    if s or mk("init", loc[:i]) in self.bind:
                        v = self.ev(mk("init", loc[:i]))
                        for e in loc[i:]:
                            v = self.part(v, e, t)
                        return v
                c = self.cell(t)
                return c if c is not None else self.opaque(t)
            s = self.loc_shape(loc)
            return self.symbolic(t, s) if s else self.opaque(t)
        if op == "neg":
            v = self.ev(t.a[0])
            return v.scale(-1) if isinstance(v, R) else v.map(lambda x: x.scale(-1))
        if op in ("+", "-", "*", "/"):
            return self.arith(op, t)
        if self.ints is not None and op in ("idiv", "%", "trunc"):
            r = self.integer(op, t)
            if r is not None:
                return r
        if op == "abs":
            v = self.ev(t.a[0])
            return absv(v) if isinstance(v, R) else v.map(absv)
        if op == "vec":
            return self.vec(t)
        if op == "cinit":
            return self.cinit(t)
        if op == "fld":
            v = self.ev(t.a[0])
            if isinstance(v, M):
                return self.part(v, t.a[1], t)
            return self.opaque(t)
        if op == "upd":
            v = self.ev(t.a[0])
            if isinstance(v, M) and len(t.a[1]) == 1:
                return self.update(v, t.a[1][0], self.ev(t.a[2]), t)
            return self.opaque(t)
        if op == "agg":
            v = self.ev(t.a[0])
            if isinstance(v, M):
                for k, x in t.a[1]:
                    if len(k) == 1 and isinstance(k[0], tuple):
                        v = self.update(v, k[0], self.ev(x), t)
                    else:
                        return self.opaque(t)
                return v
            return self.opaque(t)
        if op == "mod":
            return self.mod(t)
        if op == "call":
            return self.call(t)
        if op == "phi" and self.E is not None and t in self.E.cond:
            vs = [x for x, _, _ in self.E.cond[t] if x is not t]
            self.memo[t] = self.opaque(t)
            got = [self.ev(x) for x in vs]
            del self.memo[t]
            if got and all(mequal(got[0], g) for g in got[1:]):
                return got[0]
            if len(got) == 2 and isinstance(got[0], R) and isinstance(got[1], R):
                r = self.selection(self.E.cond[t], got)
                if r is not None:
                    return r
            if not any(t.a[0] in x._ls for x in vs) and len(vs) == len(self.E.cond[t]):
                k = CHOICE.get(t.a[0])
                if k is not None and k < len(got):
                    return got[k]
                PENDING.append((t.a[0], len(got)))
            if got and all(isinstance(g, M) and (g.r, g.c) == (got[0].r, got[0].c) for g in got
                           if isinstance(got[0], M)) and isinstance(got[0], M):
                return self.symbolic(t, (got[0].r, got[0].c))
            return self.opaque(t)
        if op in ("dflt", "undef", "zero") and t.a:
            s = shape_of(self.prog, str(t.a[0]))
            if s:
                return self.symbolic(t, s)
            return self.opaque(t)
        if op == "new":
            s = shape_of(self.prog, str(t.a[0]))
            if s:
                return self.fill(s, [self.ev(x) for x in t.a[1:] if isinstance(x, T)], t)
            if str(t.a[0]).endswith("point_xy") and len(t.a) == 3:
                return M(2, 1, [self.sc(t.a[1]), self.sc(t.a[2])])
            return self.opaque(t)
        return self.opaque(t)

    def integral(self, r):
        return r.d == ONE and all(c == int(c) and all(e > 0 and self.whole(a) for a, e in m) for m, c in r.n.items())

    def whole(self, a):
        x = _byid[a]
        return a in self.ints or x.kind in ("floor", "ceil") or (
            x.kind in ("min", "max") and all(isinstance(d, R) and self.integral(d) for d in x.data))

    def positive(self, a):
        x = _byid[a]
        return a in self.ints or x.kind == "floor" and self.ratio(x.data[0]) or (
            x.kind in ("min", "max") and all(isinstance(d, R) and self.natural(d) for d in x.data))

    def natural(self, r):
        """an integer that is not negative, as far as the signs of its terms tell"""
        return self.integral(r) and all(c > 0 and all(self.positive(a) for a, _ in m) for m, c in r.n.items())

    def ratio(self, r):
        return all(c > 0 and all(self.positive(a) for a, _ in m) for p in (r.n, r.d) for m, c in p.items())

    def integer(self, op, t):
        """integer division and remainder of numbers that are not negative, conversion to integer"""
        a = self.sc(t.a[0])
        if op == "trunc":
            return a if self.integral(a) else None
        b = self.sc(t.a[1])
        if not (self.natural(a) and self.natural(b)) or b.zero():
            return None
        q = self.flo(a / b)
        return q if op == "idiv" else a - b * q

    def flo(self, x):
        return x if self.integral(x) else fn1("floor", x)

    def cell(self, t):
        """an element of a container or matrix of unknown size, named by its base and index normal forms"""
        loc = t.a[0]
        i = next(k for k, e in enumerate(loc) if isinstance(e, tuple) and k)
        base = loc[:i]
        row = col = const(0)
        along = None        # direction a single index runs in
        dims = None
        tail = []
        for k, e in enumerate(loc[i:]):
            if not isinstance(e, tuple) or e[0] != "i":
                tail = loc[i + k:]
                break
            a = []
            for x in e[2:]:
                if not isinstance(x, T):
                    return None
                v = self.ev(x)
                if not isinstance(v, R):
                    return None
                a.append(v)
            n = e[1]
            if n == "block" and len(a) == 4:
                row, col = row + a[0], col + a[1]
                along = "r" if a[3].const() == 1 else "c" if a[2].const() == 1 else None
            elif n == "col" and len(a) == 1:
                col, along = col + a[0], "r"
            elif n == "row" and len(a) == 1:
                row, along = row + a[0], "c"
            elif n in ("at", "elem") and len(a) == 2:
                row, col, dims = row + a[0], col + a[1], 2
                tail = loc[i + k + 1:]
                break
            elif n in ("at", "elem") and len(a) == 1:
                if along == "r":
                    row, dims = row + a[0], 2
                elif along == "c":
                    col, dims = col + a[0], 2
                elif equal(row, const(0)) and equal(col, const(0)):
                    row, dims = a[0], 1
                else:
                    return None
                tail = loc[i + k + 1:]
                break
            else:
                return None
        if dims is None or tail and tuple(tail) not in ((("i", "at", num(0)),), (("i", "at", num(1)),), (("i", "at", num(2)),)) and \
                any(isinstance(x, tuple) for x in tail):
            return None
        key = (base, row.key(), col.key() if dims == 2 else None, tuple(tail))
        return R(p_atom(atom("cell", key, (row, col))))

    def selection(self, cs, got):
        """a minimum, maximum or magnitude written as a choice"""
        p, q = cs[0][2], cs[1][2]
        if not p or not q:
            return None
        for l, pol in next(iter(p)):
            if l.op not in ("<", "<=") or not all((l, pol) in c for c in p) or not all((l, not pol) in c for c in q):
                continue
            a, b = self.ev(l.a[0]), self.ev(l.a[1])
            if not isinstance(a, R) or not isinstance(b, R):
                continue
            x, y = got if pol else got[::-1]      # x when a < b
            if equal(x, b) and equal(y, a):
                return extremum("max", a, b)
            if equal(x, a) and equal(y, b):
                return extremum("min", a, b)
            if (b - a).n and equal(x, y.scale(-1)):
                if equal(y, a - b):
                    return absv(y)
                if equal(x, a - b):
                    return absv(x).scale(-1)
        return None

    def arith(self, op, t):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if isinstance(a, R) and isinstance(b, R):
            return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__, "/": a.__truediv__}[op](b)
        if op in "+-":
            if isinstance(a, R) or isinstance(b, R):
                # a zero/constant without known shape
                if isinstance(a, R) and self.shapeless(t.a[0]) is not None:
                    a = self.shaped(t.a[0], b.r, b.c)
                elif isinstance(b, R) and self.shapeless(t.a[1]) is not None:
                    b = self.shaped(t.a[1], a.r, a.c)
                elif isinstance(a, R):       # only arrays can be added to a scalar
                    a = M(b.r, b.c, [a] * (b.r * b.c))
                else:
                    b = M(a.r, a.c, [b] * (a.r * a.c))
            return a + b if op == "+" else a - b
        if op == "*":
            if isinstance(a, R):
                if self.shapeless(t.a[0]) is not None:
                    return self.shaped(t.a[0], b.r, b.r).mul(b)
                return b.map(lambda x: a * x)
            if isinstance(b, R):
                if self.shapeless(t.a[1]) is not None:
                    return a.mul(self.shaped(t.a[1], a.c, a.c))
                return a.map(lambda x: x * b)
            if self.arraylike(t.a[0]) or self.arraylike(t.a[1]):
                if (a.r, a.c) != (b.r, b.c):
                    raise Shape("product of arrays of different shapes")
                return M(a.r, a.c, [x * y for x, y in zip(a.e, b.e)])
            return a.mul(b)
        if op == "/" and isinstance(b, M) and isinstance(a, M) and (a.r, a.c) == (b.r, b.c):
            return M(a.r, a.c, [x / y for x, y in zip(a.e, b.e)])
        if op == "/" and isinstance(b, R):
            return a.map(lambda x: x / b)
        raise Shape("unsupported operation on matrices: %s" % show(t))

    def arraylike(self, t, d=0):
        if t.op == "call":
            n = _short(t.a[0])
            return n == "array" or n in ("sqrt", "abs", "square", "cwiseSqrt") and d < 8 and len(t.a) > 1 and \
                isinstance(t.a[1], T) and self.arraylike(t.a[1], d + 1)
        if t.op in ("+", "-", "*", "/", "neg") and d < 8:
            return any(self.arraylike(x, d + 1) for x in t.a if isinstance(x, T))
        return False

    def shapeless(self, t):
        if t.op == "call":
            n = _short(t.a[0])
            if n in ("Zero", "Identity", "Ones") or n == "Constant":
                return n
        return None

    def shaped(self, t, r, c):
        n = self.shapeless(t)
        if n == "Zero":
            return zeros(r, c)
        if n == "Identity":
            return identity(r, c)
        if n == "Ones":
            return M(r, c, [const(1)] * (r * c))
        args = [x for x in t.a[1:] if isinstance(x, T) and x.op != "ty"]
        return M(r, c, [self.sc(args[-1])] * (r * c))

    def vec(self, t):
        vs = [self.ev(x) for x in t.a]
        if all(isinstance(v, R) for v in vs):
            return M(len(vs), 1, vs)
        if all(isinstance(v, M) and v.c == 1 and v.r == vs[0].r for v in vs):
            # initialiser list of rows
            return M(len(vs), vs[0].r, [x for v in vs for x in v.e])
        raise Shape("unsupported initialiser %s" % show(t))

    def fill(self, shape, vs, t):
        r, c = shape
        ts = [None] * len(vs)
        if all(isinstance(v, R) for v in vs) and len(vs) == r * c:
            return M(r, c, vs)
        if len(vs) == 1 and isinstance(vs[0], M) and (vs[0].r, vs[0].c) == (r, c):
            return vs[0]
        return self.tile(r, c, vs, [None] * len(vs), t)

    def cinit(self, t):
        s = shape_of(self.prog, t.a[0])
        if not s:
            n = len(t.a) - 1
            vs = [self.ev(x) for x in t.a[1:]]
            if all(isinstance(v, R) for v in vs):
                return M(n, 1, vs)
            raise Shape("comma initialisation of unknown shape")
        return self.tile(s[0], s[1], [self.ev(x) for x in t.a[1:]], t.a[1:], t)

    def tile(self, r, c, vs, ts, t):
        """Eigen's comma initialiser: blocks left to right, top to bottom; a constant without shape takes what fits"""
        out = zeros(r, c)
        i = j = 0
        h = 0
        for v, x in zip(vs, ts):
            if j == c:
                i, j = i + h, 0
            if isinstance(v, R) and x is not None and self.shapeless(x) is not None:
                hh = h if j else (r - i)
                v = self.shaped(x, hh, 1 if c - j == 1 or True else c - j)
            if isinstance(v, R):
                v = M(1, 1, [v])
            if j == 0:
                h = v.r
            if v.r != h or j + v.c > c or i + v.r > r:
                raise Shape("comma initialisation does not fill the matrix: %s" % show(t))
            out = out.put(i, j, v)
            j += v.c
        if j != c or i + h != r:
            raise Shape("comma initialisation does not fill the matrix")
        return out

    def idx(self, x):
        if isinstance(x, T):
            v = self.ev(x)
            if isinstance(v, R):
                c = v.const()
                if c is not None and c.denominator == 1:
                    return int(c)
        return None

    def region(self, v, e):
        """(i, j, h, w) designated by a path element, or None"""
        n, args = e[1], [self.idx(x) for x in e[2:]]
        m = _blk.match(n)
        if not m or any(a is None for a in args):
            return None
        n = m.group(1)
        ta = [int(x) for x in m.group(2).split(",")] if m.group(2) else []
        if n == "at":
            if len(args) == 1 and (v.c == 1 or v.r == 1):
                return (args[0], 0, 1, 1) if v.c == 1 else (0, args[0], 1, 1)
            if len(args) == 2:
                return (args[0], args[1], 1, 1)
            return None
        if n == "block":
            if len(ta) >= 2 and len(args) >= 2:
                return (args[0], args[1], ta[0], ta[1])
            if len(args) == 4:
                return tuple(args)
        if n == "colwise" and not args and v.c == 1:
            return (0, 0, v.r, 1)
        if n == "col" and len(args) == 1:
            return (0, args[0], v.r, 1)
        if n == "row" and len(args) == 1:
            return (args[0], 0, 1, v.c)
        if n in ("head", "tail"):
            k = ta[0] if ta else (args[0] if args else None)
            if k is None:
                return None
            o = 0 if n == "head" else v.r * v.c - k
            return (o, 0, k, 1) if v.c == 1 else (0, o, 1, k)
        if n == "segment":
            if ta and args:
                o, k = args[0], ta[0]
            elif len(args) == 2:
                o, k = args
            else:
                return None
            return (o, 0, k, 1) if v.c == 1 else (0, o, 1, k)
        if n in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            hw = ta[:2] if len(ta) >= 2 else args[:2]
            if len(hw) < 2:
                return None
            return (0 if "top" in n else v.r - hw[0], 0 if "Left" in n else v.c - hw[1], hw[0], hw[1])
        if n in ("topRows", "bottomRows"):
            k = ta[0] if ta else args[0]
            return (0 if n == "topRows" else v.r - k, 0, k, v.c)
        if n in ("leftCols", "rightCols"):
            k = ta[0] if ta else args[0]
            return (0, 0 if n == "leftCols" else v.c - k, v.r, k)
        if n == "translation" and v.c == 4:
            return (0, 3, 3, 1)
        if n == "linear" and v.c == 4:
            return (0, 0, 3, 3)
        return None

    def part(self, v, e, t):
        if isinstance(v, R):
            return self.opaque(t)
        if isinstance(e, tuple):
            if e[1] == "diagonal":
                k = min(v.r, v.c)
                return M(k, 1, [v.at(i, i) for i in range(k)])
            g = self.region(v, e)
            if g is not None:
                b = v.block(*g)
                return b.e[0] if (b.r, b.c) == (1, 1) else b
        return self.opaque(t)

    def update(self, v, e, x, t):
        if isinstance(e, tuple):
            if e[1] == "diagonal":
                k = min(v.r, v.c)
                for i in range(k):
                    y = x if isinstance(x, R) else x.at(i)
                    v = v.put(i, i, M(1, 1, [y]))
                return v
            g = self.region(v, e)
            if g is not None:
                i, j, h, w = g
                if isinstance(x, R):
                    y = t.a[2] if t.op == "upd" else None
                    if (h, w) != (1, 1):
                        if y is None or self.shapeless(y) is None:
                            raise Shape("block assigned a scalar")
                        x = self.shaped(y, h, w)
                    else:
                        x = M(1, 1, [x])
                if (x.r, x.c) != (h, w):
                    if (x.c, x.r) == (h, w) and 1 in (h, w):
                        x = x.T()
                    else:
                        raise Shape("block of another shape")
                return v.put(i, j, x)
        raise Shape("assignment to a part that is not a constant block: %s" % show(t))

    def mod(self, t):
        n, obj, args = t.a[0], t.a[1], t.a[2:]
        if n in ("setZero", "setIdentity", "setOnes", "setConstant"):
            v = self.ev(obj)
            s = (v.r, v.c) if isinstance(v, M) else None
            if s is None:
                return self.opaque(t) if n != "setZero" else self.opaque(t)
            return {"setZero": lambda: zeros(*s), "setIdentity": lambda: identity(*s),
                    "setOnes": lambda: M(s[0], s[1], [const(1)] * (s[0] * s[1])),
                    "setConstant": lambda: M(s[0], s[1], [self.sc(args[0])] * (s[0] * s[1]))}[n]()
        if n == "normalize":
            v = self.ev(obj)
            if isinstance(v, M):
                r = sqrt(norm2(v))
                return v.map(lambda x: x / r)
        if n == "transposeInPlace":
            v = self.ev(obj)
            if isinstance(v, M):
                return v.T()
        return self.opaque(t)

    def call(self, t):
        n = _short(t.a[0])
        ty = [x for x in t.a[1:] if isinstance(x, T) and x.op == "ty"]
        args = [x for x in t.a[1:] if not (isinstance(x, T) and x.op == "ty")]
        if n in ("Zero", "Identity", "Ones", "Constant") and ty and ty[0].a[0]:
            r, c = ty[0].a
            if n == "Zero":
                return zeros(r, c)
            if n == "Identity":
                return identity(r, c)
            if n == "Ones":
                return M(r, c, [const(1)] * (r * c))
            return M(r, c, [self.sc(args[-1])] * (r * c))
        if n in ("UnitX", "UnitY", "UnitZ", "UnitW") and ty and ty[0].a[0]:
            r, c = ty[0].a
            k = "XYZW".index(n[-1])
            if c > 1 and r > 1:
                c = 1
            return M(r, c, [const(1 if i == k else 0) for i in range(r * c)])
        if n == "Zero" and len(args) == 2:
            i, j = self.idx(args[0]), self.idx(args[1])
            if i and j:
                return zeros(i, j)
        if not args:
            return self.ofn(t, [])
        if n == "make" and "boost::geometry" in str(t.a[0]) and len(args) in (2, 3):
            return M(len(args), 1, [self.sc(x) for x in args])
        if n in ("size", "rows", "cols") and len(args) == 1 and args[0].op == "init" and not self.loc_shape(args[0].a[0]):
            loc = args[0].a[0]
            e = loc[-1]
            if isinstance(e, tuple) and e[0] == "i" and e[1] == "block" and len(e) == 6:
                h, w = self.sc(e[4]), self.sc(e[5])
                return h if n == "rows" else w if n == "cols" else h * w
            if not isinstance(e, tuple) or len(loc) == 1:
                return R(p_atom(atom("dim", (n, loc), (n, showloc(loc)))))
        if n.startswith("operator ") and "double" in n and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, R):
                return v
            if (v.r, v.c) == (1, 1):
                return v.e[0]
        if n in ("max", "min", "fmax", "fmin") and len(args) == 2:
            return extremum("max" if "max" in n else "min", self.sc(args[0]), self.sc(args[1]))
        if n in ("sqrt", "sqrtf", "sqrtl"):
            v = self.ev(args[0])
            return sqrt(v) if isinstance(v, R) else v.map(sqrt)
        if n == "cbrt":
            return self.opaque(t)
        if n == "hypot" and len(args) in (2, 3):
            r = const(0)
            for x in args:
                y = self.sc(x)
                r = r + y * y
            return sqrt(r)
        if n == "clamp" and len(args) >= 3:
            a, lo, hi = (self.sc(x) for x in args[:3])
            return extremum("min", extremum("max", a, lo), hi)
        if n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "floor", "ceil", "sinf", "cosf"):
            if len(args) == 1:
                v = self.ev(args[0])
                if isinstance(v, R) and self.ints is not None and n in ("floor", "ceil") and self.integral(v):
                    return v
                if isinstance(v, R):
                    return fn1(n.rstrip("f") if n in ("sinf", "cosf") else n, v)
            return self.opaque(t)
        if n == "atan2":
            return atan2(self.sc(args[0]), self.sc(args[1]))
        if n == "pow" and len(args) == 2:
            e = self.sc(args[1]).const()
            if e is not None:
                r = power(self.sc(args[0]), e)
                if r is not None:
                    return r
            return self.opaque(t)
        v = self.ev(args[0])
        if n in ("base", "eval", "matrix", "array", "derived", "asDiagonal") and isinstance(v, (R, M)) and \
                n != "asDiagonal" and len(args) == 1:
            return v
        if isinstance(v, M):
            if n == "asDiagonal":
                k = v.r * v.c
                return M(k, k, [v.e[i] if i == j else const(0) for i in range(k) for j in range(k)])
            if n in ("transpose", "adjoint"):
                return v.T()
            if n == "selfadjointView":
                lower = "<1>" in t.a[0]
                return M(v.r, v.c, [v.at(max(i, j), min(i, j)) if lower else v.at(min(i, j), max(i, j))
                                    for i in range(v.r) for j in range(v.c)])
            if n == "triangularView":
                lower = "<1>" in t.a[0]
                return M(v.r, v.c, [v.at(i, j) if (j <= i) == lower or i == j else const(0)
                                    for i in range(v.r) for j in range(v.c)])
            if n in ("norm", "stableNorm"):
                return sqrt(norm2(v))
            if n == "squaredNorm":
                return norm2(v)
            if n in ("normalized", "stableNormalized"):
                r = sqrt(norm2(v))
                return v.map(lambda x: x / r)
            if n == "sum":
                s = const(0)
                for x in v.e:
                    s = s + x
                return s
            if n == "trace":
                s = const(0)
                for i in range(v.r):
                    s = s + v.at(i, i)
                return s
            if n == "determinant":
                return det(v) if v.r <= 3 else self.opaque(t)
            if n in INVS and len(args) == 1:
                return inverse(v)
            if n in ("completeOrthogonalDecomposition", "fullPivLu", "partialPivLu", "ldlt", "llt",
                     "colPivHouseholderQr", "fullPivHouseholderQr", "householderQr", "lu") and len(args) == 1:
                return v
            if n == "solve" and len(args) == 2:
                w = self.ev(args[1])
                if isinstance(w, M):
                    return inverse(v).mul(w)
            if n == "homogeneous":
                return M(v.r + 1, 1, v.e + [const(1)])
            if n == "hnormalized":
                return M(v.r - 1, 1, [x / v.e[-1] for x in v.e[:-1]])
            if n in ("dot", "cross", "cwiseProduct", "cwiseQuotient") and len(args) == 2:
                w = self.ev(args[1])
                if isinstance(w, M):
                    if n == "dot":
                        s = const(0)
                        for x, y in zip(v.e, w.e):
                            s = s + x * y
                        return s
                    if n == "cross":
                        return cross(v, w)
                    return M(v.r, v.c, [(x * y if n == "cwiseProduct" else x / y) for x, y in zip(v.e, w.e)])
            if n == "cwiseAbs" or n == "abs":
                return v.map(absv)
            if n in ("cwiseSqrt", "sqrt") and len(args) == 1:
                return v.map(sqrt)
            if n in ("square", "cwiseAbs2", "abs2") and len(args) == 1:
                return v.map(lambda x: x * x)
            if n == "reverse" and len(args) == 1:
                return M(v.r, v.c, v.e[::-1])
            if n in ("minCoeff", "maxCoeff") and len(args) == 1:
                k = n[:3]
                ks = sorted([(x.key(), x) for x in v.e], key=lambda z: repr(z[1]))
                return R(p_atom(atom(k, tuple(z[0] for z in ks), tuple(z[1] for z in ks))))
            if n == "cwiseInverse":
                return v.map(lambda x: const(1) / x)
            if n == "rows":
                return const(v.r)
            if n == "cols":
                return const(v.c)
            if n == "size":
                return const(v.r * v.c)
            if n == "mean":
                s = const(0)
                for x in v.e:
                    s = s + x
                return s.scale(Fraction(1, v.r * v.c))
            if n in ("conjugate",) and (v.r, v.c) == (4, 1):
                return M(4, 1, [v.e[0].scale(-1), v.e[1].scale(-1), v.e[2].scale(-1), v.e[3]])
            if n == "toRotationMatrix" and (v.r, v.c) == (4, 1):
                x, y, z, w = v.e
                two = const(2)
                o = const(1)
                return M(3, 3, [o - two * (y * y + z * z), two * (x * y - z * w), two * (x * z + y * w),
                                two * (x * y + z * w), o - two * (x * x + z * z), two * (y * z - x * w),
                                two * (x * z - y * w), two * (y * z + x * w), o - two * (x * x + y * y)])
        if n in ("double_equal",):
            return self.opaque(t)
        return self.ofn(t, args)

    def ofn(self, t, args):
        """an opaque function of normalised arguments: same normal forms, same value"""
        vs = [self.ev(x) for x in args]
        for f in self.prog.fns.values():
            if f.qn == t.a[0]:
                s = shape_of(self.prog, f.ret)
                if s:
                    k = tuple(y.key() for y in vs)
                    return M(s[0], s[1], [R(p_atom(atom("fn:%s[%d]" % (t.a[0], i), k, tuple(
                        z for y in vs for z in ([y] if isinstance(y, R) else y.e)))))
                        for i in range(s[0] * s[1])])
                break
        return R(p_atom(atom("fn:" + t.a[0], tuple(y.key() for y in vs),
                             tuple(z for y in vs for z in ([y] if isinstance(y, R) else y.e)))))


def _short(q):
    q = str(q)
    i = q.find("<")
    if i > 0 and not q.endswith("operator<"):
        q = q[:i]
    return q.split("::")[-1]
