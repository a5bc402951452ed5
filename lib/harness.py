"""Runs one check: loads the facts of the current tree, applies the property's analysis, writes the evidence file and
reports. Exit status: 0 holds, 1 violated (a VIOLATION line), 2 the analysis could not be carried out."""
import importlib, json, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import facts  # noqa: E402


class Undecided(Exception):
    pass


class OutOfTime(BaseException):
    pass


PART = {"quick": 90, "thorough": 300}      # seconds for one part of a check, and for all of them
ALL = {"quick": 420, "thorough": 700}


def ring(*_):
    raise OutOfTime()


KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []
        self.counts = {}
        self.items = []
        self.assumptions = []
        self.notes = []
        self._progs = {}
        self._seen = set()
        self.t0 = None

    @property
    def prog(self):
        return self.program(*self.defines)

    defines = ()

    def program(self, *defines, only=None):
        if defines not in self._progs:
            self._progs[defines] = facts.load(defines, only)
        return self._progs[defines]

    def variant(self, f, defines, only, *a):
        """runs a part of a check on the program built with these definitions"""
        self.program(*defines, only=only)
        self.defines = defines
        try:
            self.group(f, *a)
        finally:
            self.defines = ()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def item(self, s):
        """an obligation that was examined"""
        if s not in self.items:
            self.items.append(s)

    def need(self, cond, what):
        if not cond:
            raise facts.AnalysisError("anchor not found: " + what)

    def violation(self, key, where, msg):
        """key identifies the finding independently of line numbers"""
        k = (key, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.viol.append({"key": key, "where": where, "message": msg})

    def group(self, f, *a):
        """runs a part of a check; a part whose code cannot be found or understood is counted as undecided"""
        self.prog
        if self.t0 is None:
            self.t0 = time.time()
        left = min(PART.get(self.tier, 90), ALL.get(self.tier, 420) - (time.time() - self.t0))
        try:
            if left <= 1:
                raise OutOfTime()
            signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, left, 5)
            try:
                f(self, *a)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except OutOfTime:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.count("undecided")
            self.notes.append("undecided: %s: out of time" % f.__name__)
        except Undecided as e:
            self.count("undecided")
            self.notes.append("undecided: %s: %s" % (f.__name__, e))
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.count("undecided")
            self.notes.append("undecided: %s: %s %s" % (f.__name__, type(e).__name__, e))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def where(fn, node=None):
    l = node.get("l") if isinstance(node, dict) else None
    n = fn.short
    if "(anonymous class)" in n:
        n = n.split("(")[0] + " (lambda)"
    return "%s:%s in %s" % (fn.file, l or fn.l, n)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, pid + ".json")
    for f in (evf,):
        if os.path.exists(f):
            os.remove(f)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
        if not ctx.items:
            raise facts.AnalysisError("nothing was examined")
    except facts.AnalysisError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error of the analysis" % pid)
        return 2
    known = []
    if os.path.exists(KNOWN):
        known = [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == pid]
    kk = {k["key"]: k for k in known}
    new = [v for v in ctx.viol if v["key"] not in kk]
    hit = []
    for v in ctx.viol:
        if v["key"] in kk and v["key"] not in hit:
            hit.append(v["key"])
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kk[v["key"]]["what"], v["where"]))
    progs = list(ctx._progs.values())
    cov = {"explanation": getattr(mod, "RULE", "").strip(),
           "obligations": len(ctx.items),
           "examined": ctx.items[:400],
           "translation_units": sum(len(p.units) for p in progs),
           "units_unchanged_since_last_extraction": sum(p.reused for p in progs),
           "functions_in_program": max([len(p.fns) for p in progs] or [0])}
    cov.update(ctx.counts)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": ctx.assumptions + ctx.notes}
    json.dump(ev, open(evf, "w"), indent=1)
    for n in ctx.notes:
        if n.startswith("undecided"):
            print("  note: " + n[:300])
    print("%s: %d obligations examined, %d violation(s), %d known, %.1f s" % (
        pid, len(ctx.items), len(new), len(hit), time.time() - t0))
    if new:
        rp = os.path.join(evdir, pid + ".violations.json")
        json.dump(new, open(rp, "w"), indent=1)
        for v in new[:40]:
            print("  %s: %s [%s]" % (v["where"], v["message"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
