"""seed.py FILE [id...]: development aid. FILE defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)],
demo=C++ source)}. Writes seeded/<id>/ and confirms it: builds, tests pass, demo fails with the change and passes without.
The change is applied to /repo and undone straight afterwards."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0: the property's demonstration passes; nonzero: it fails
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
I=""
for d in coordinates features/lines features/primitives features/keypoints map_management tracking outputs utils; do I="$I -I$R/src/$d"; done
g++ -std=gnu++20 -w -g -O0 -fno-access-control -I"$R/src" $I -I"$R/third_party" -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 \\
    "$here/demo.cpp" -o "$T/demo" -L"$R/_build" -Wl,-rpath,"$R/_build" -Wl,--no-as-needed \\
    -lrgbSLAM -lprimitives -llines -ltracking -lcoordinates -lutils -loutputs -lthirdParty -lopencv_core -lopencv_imgproc -ltbb \\
    || exit 3
cd "$T" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


ns = {}
exec(open(sys.argv[1]).read(), ns)
S = ns["SEEDS"]
ids = sys.argv[2:] or list(S)
assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "/repo is not clean"
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
for i in ids:
    s = S[i]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO.replace("-fno-access-control ", '-fno-access-control -I"$here/stub" ') if s.get("stub") else DEMO)
    if s.get("stub"):
        # the header is not installed, and only its presence counts
        os.makedirs(d + "/stub/opencv2", exist_ok=True)
        open(d + "/stub/opencv2/xfeatures2d.hpp", "w").write("#pragma once\n#include <opencv2/features2d.hpp>\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    msg = []
    try:
        for f, o, n in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(o) == 1, (i, "found %d times" % t.count(o), o)
            open(p, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        q = sh("bash /opt/vp/test.sh /tmp/seeds/out.json")
        if q.returncode and "build failed" in q.stderr:
            msg.append("BUILD FAILS " + q.stdout[-600:])
        else:
            o = json.load(open("/tmp/seeds/out.json"))
            lost = stable - set(o["passed"]) if stable else set(o["failed"])
            msg.append("tests ok" if not lost else "TESTS FAIL %s" % sorted(lost)[:4])
            q = sh("bash %s/demo.sh" % d, cwd=R)
            msg.append("demo fails (good) %d %s" % (q.returncode, (q.stdout + q.stderr)[-150:].strip()) if q.returncode not in (0, 3) else
                       "DEMO PASSES WITH BUG %d %s" % (q.returncode, (q.stdout + q.stderr)[-500:]))
            q = sh("VERIF_EVIDENCE=/tmp/seeds/ev %s/check %s" % (V, s["property"]))
            msg.append("caught" if q.returncode == 1 else "NOT CAUGHT exit %d" % q.returncode)
    except AssertionError as e:
        msg.append(str(e))
    finally:
        sh("git -C %s checkout -- ." % R)
    q = sh("bash /opt/vp/build.sh")
    q = sh("bash %s/demo.sh" % d, cwd=R)
    msg.append("demo ok clean" if q.returncode == 0 else "DEMO FAILS ON CLEAN TREE %d %s" % (q.returncode, (q.stdout + q.stderr)[-600:]))
    print(i, s["property"], " | ".join(msg))
    sys.stdout.flush()
