"""dump.py FUNCTION-SUFFIX: exits, values and facts of a function (debugging aid)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import facts
import engine
from engine import *
engine.SHOWDEPTH = 14
prog = facts.load()
class P(Policy):
    deny = tuple(sys.argv[2:])
    max_depth = 12
for f in prog.find(sys.argv[1]):
    print("==", f.id, f.file, f.l)
    E = Engine(prog, P())
    exits, throws = E.run(f)
    for k, xs in (("exit", exits), ("throw", throws)):
        for x in xs:
            print(k, x.node.get("l") if x.node else None, "VAL", x.val)
            print("   FACTS", [(k, v) for k, v in x.S.facts.items()])
            for r, d in x.S.store.items():
                if r[0] in ("o", "g"):
                    for p, v in d.items():
                        if v is not mk("init", (r,) + p):
                            print("   ", showloc((r,) + p), ":=", v)
