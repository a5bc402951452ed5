"""mut.py FILE [filter]: development aid. FILE holds python tuples (property, kind, file, old, new); each change is made in
a scratch copy of /repo's sources and the property's check is run on it. kind 'bug' must be reported, 'same' must not."""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, m):
    props, kind, f, old, new = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        subprocess.run("cd ${MUTBASE:-/repo} && git ls-files -z | grep -zvE '^(data|.*\\.(png|gif|jpg))' | xargs -0 cp --parents -t %s" % r, shell=True, check=True)
        for ff, oo, nn in ([(f, old, new)] if isinstance(f, str) else zip(f, old, new)):
            p = os.path.join(r, ff)
            s = open(p).read()
            if s.count(oo) < 1:
                return i, "NOTFOUND " + oo[:60]
            open(p, "w").write(s.replace(oo, nn, 1))
        out = []
        for pr in ([props] if isinstance(props, str) else props):
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, "ev"))
            q = subprocess.run([os.path.join(V, "check"), pr], env=e, capture_output=True, text=True, timeout=500)
            got = q.returncode
            want = {"bug": 1, "same": 0}[kind]
            note = [l for l in q.stdout.splitlines() if "undecided" in l or "[" in l or "ERROR" in l]
            if got != want:
                out.append("%s %s: exit %d %s" % ("MISSED" if kind == "bug" and got == 0 else "FALSE" if kind == "same" and got == 1 else "NOANSWER",
                                                  pr, got, ([x[:160] for x in note[:3]] or [q.stdout[-300:] + q.stderr[-600:]])))
            else:
                out.append("ok %s %s" % (pr, (note[:1] or [""])[0][:160]))
        return i, "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


src = open(sys.argv[1]).read()
if src.lstrip().startswith("["):
        ms = ast.literal_eval(src)
else:
        ns = {}
        exec(src, ns)
        ms = ns["LIST"]
sel = [(i, m) for i, m in enumerate(ms) if len(sys.argv) < 3 or sys.argv[2] in str(m[0])]
with ThreadPoolExecutor(4) as ex:
    for i, s in ex.map(lambda a: one(*a), sel):
        print("%3d %-5s %s | %s -> %s" % (i, ms[i][1], s, str(ms[i][3])[:60].replace("\n", " "), str(ms[i][4])[:60].replace("\n", " ")))
        sys.stdout.flush()
