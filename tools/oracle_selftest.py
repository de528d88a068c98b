"""dev: run every oracle of a property against the unmodified code (oracles must agree everywhere)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mirv import runner
from mirv.core import Program
from mirv.conc import Rpc, Tester
from spec.registry import PROPS
pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 300
rx = sys.argv[3] if len(sys.argv) > 3 else ""
prop = PROPS[pid]
prog = Program(runner.build_mir(prop.feats))
t = Tester(Rpc(runner.build_rpc(prop.feats)), prog, prop.special)
bad = none = tot = 0
for o in prop.obligations(prog) + (prop.bounded(prog) if prop.bounded else []):
    if o.root is None or not re.search(rx, o.name):
        continue
    if getattr(o, "oracle", None) is None:
        none += 1
        print("no oracle", o.name)
        continue
    k, f = t.search(o.root, o.oracle, n=min(n, getattr(o, "search_n", n)), gen=getattr(o, "gen", None), extra=getattr(o, "extra_inputs", ()))
    tot += k
    if f or not k:
        bad += 1
        print("MISMATCH", o.name, k, str(f)[-600:])
print(pid, "evaluations", tot, "mismatches", bad, "without oracle", none)
