"""shared by the covariance checks"""
import re
from engine import *
from facts import match_qn, short

VALID = "is_covariance_valid"
LOGS = ("outputs::log", "outputs::log_warning", "outputs::log_error")

_sq = re.compile(r"^(?:const )?Eigen::Matrix<double, (\d+), (\d+)(?:, [^>]*)?>(?: ?&)?$")


def is_cov_type(prog, t):
    t = t.strip()
    m = _sq.match(t)
    if m:
        return m.group(1) == m.group(2)
    b = re.sub(r"^const ", "", t).rstrip("& ").strip()
    if b.endswith("Covariance"):
        return True
    return False


def predicates(prog):
    """the validity test(s): named so, or testing positiveness through a decomposition"""
    return [f for f in prog.fns.values() if f.n == VALID]


def valid_facts(S):
    """terms v for which 'v is a valid covariance' is known to hold"""
    out = []
    for k, v in S.facts.items():
        if v and k.op == "call" and VALID in k.a[0] and len(k.a) > 1:
            out.append(k.a[1])
    return out


def canon(v):
    """values that are the same matrix: strip views that do not change a symmetric argument"""
    return v


def summands(t):
    if t.op == "+":
        return summands(t.a[0]) + summands(t.a[1])
    return [t]


def is_trivially_valid(v):
    """zero, identity, non-negative multiples of it"""
    if v.op == "mod" and v.a[0] in ("setZero", "setIdentity"):
        return True
    if v.op == "call" and v.a[0].split("::")[-1] in ("Zero", "Identity"):
        return True
    if v.op == "c" and v.a[0] == "n":
        return v.a[1] >= 0
    if v.op == "*":
        for x, y in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
            c = cval(x)
            if c is not None and c >= 0 and is_trivially_valid(y):
                return True
    return False


def valid_of_facts(facts):
    return [k.a[1] for k, v in facts.items() if v and k.op == "call" and VALID in k.a[0] and len(k.a) > 1]


def validated(E, S, v, ok_init=None, depth=0, vf=None):
    """v passed the validity test on every path into this state (phi values: on every incoming edge)"""
    vf = valid_facts(S) if vf is None else vf
    if v in vf or is_trivially_valid(v) or (ok_init is not None and v is ok_init):
        return True
    if any(v in summands(t) for t in vf):
        return True
    if v.op == "phi" and v in E.cond and depth < 12:
        return all(validated(E, S, x, ok_init, depth + 1, vf + valid_of_facts(fs)) for x, fs, _ in E.cond[v]
                   if x is not v)
    return False


class CovPolicy(Policy):
    deny = (VALID,) + LOGS
    max_depth = 10
