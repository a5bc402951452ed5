"""alg.py FUNCTION-SUFFIX [deny...]: normal forms of the results (debugging aid)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import facts
from engine import *
from algebra import *
prog = facts.load()
class P(Policy):
    deny = tuple(sys.argv[2:])
    max_depth = 12
for f in prog.find(sys.argv[1]):
    print("==", f.id, f.file, f.l)
    E = Engine(prog, P())
    exits, throws = E.run(f)
    for x in exits:
        A = Alg(prog, f, E)
        if x.val is not None:
            try:
                print("exit", x.node and x.node.get("l"), repr(A.ev(x.val))[:2500])
            except Shape as e:
                print("SHAPE", e)
        for r, d in x.S.store.items():
            if r[0] in ("o", "g"):
                for p, v in d.items():
                    if v is not mk("init", (r,) + p):
                        try:
                            print("   ", showloc((r,) + p), ":=", repr(A.ev(v))[:2000])
                        except Shape as e:
                            print("SHAPE", e)
