"""randmut.py SEED COUNT: development aid. Random small changes (operators, constants, arguments, deleted statements) in scratch
copies of the sources; prints the ones that compile and that no check reports."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUTBASE", "/repo")
RULES = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" == ", [" != "]),
         (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" and ", [" or "]),
         (r" or ", [" and "]), (r"\bnot ", [""]), (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".x()"]), (r"\btrue\b", ["false"]),
         (r"\bfalse\b", ["true"]), (r" \+= ", [" -= ", " = "]), (r"\(0, ", ["(1, "]), (r"\b2\.0\b", ["1.0"]), (r"\b1\.0\b", ["2.0"]),
         (r"^\s+[\w.\[\]()>-]+ [+*/-]?= [^;{}]*;$", [""]), (r"^\s+[\w.]+\([^;{}]*\);$", [""]), (r"^\s+continue;$", [""])]


def places():
    out = []
    for dp, _, fs in os.walk(R + "/src"):
        for f in fs:
            if not f.endswith((".cpp", ".hpp")) or "draw" in f or "line" == f[:4]:
                continue
            p = os.path.join(dp, f)
            for n, l in enumerate(open(p).read().split("\n")):
                if re.match(r"\s*(//|\*|/\*|#|template|static_assert|assert)", l) or "log_" in l or "std::cout" in l or "imshow" in l or "template<" in l:
                    continue
                for pat, news in RULES:
                    for m in re.finditer(pat, l):
                        if l[:m.start()].count('"') % 2:
                            continue
                        for nw in news:
                            out.append((os.path.relpath(p, R), n, m.start(), m.end(), nw))
    return out


def one(m):
    f, n, a, b, nw = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        os.makedirs(r)
        subprocess.run("cd %s && git ls-files -z | grep -zvE '^(data|.*\\.(png|gif|jpg))' | xargs -0 cp --parents -t %s" % (R, r), shell=True, check=True)
        p = os.path.join(r, f)
        ls = open(p).read().split("\n")
        old = ls[n]
        ls[n] = old[:a] + nw + old[b:]
        open(p, "w").write("\n".join(ls))
        hits = []
        for i in range(1, 27):
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, "ev"))
            q = subprocess.run([os.path.join(V, "check"), "P%02d" % i], env=e, capture_output=True, text=True, timeout=900)
            if q.returncode == 1:
                hits.append("P%02d" % i)
                break
            if "error:" in q.stdout + q.stderr or q.returncode > 1:
                return m, old, ls[n], "COMPILE"
        return m, old, ls[n], ",".join(hits) or "SURVIVES"
    except Exception as ex:
        return m, "", "", "EX %s" % ex
    finally:
        shutil.rmtree(d, ignore_errors=True)


ps = places()
random.seed(int(sys.argv[1]))
random.shuffle(ps)
tot = {}
with ThreadPoolExecutor(6) as ex:
    for m, o, w, r in ex.map(one, ps[:int(sys.argv[2])]):
        k = r if r in ("COMPILE", "SURVIVES") else "caught"
        tot[k] = tot.get(k, 0) + 1
        if k == "SURVIVES":
            print("%s:%d\n    - %s\n    + %s" % (m[0], m[1] + 1, o.strip(), w.strip()), flush=True)
print(tot, len(ps))
