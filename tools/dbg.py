"""Debug one unit in-process: tools/dbg.py C05.null [case-index] [timeout]"""
import sys, os, time, traceback, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vf
from vf import runner, core, rt
pid = sys.argv[1].split(".")[0]
units = runner.load(pid, True)
u = units[sys.argv[1]]
cs = u.cases("quick")
ci = sys.argv[2] if len(sys.argv) > 2 else "0"
to = float(sys.argv[3]) if len(sys.argv) > 3 else 60
case = cs[int(ci)] if ci.lstrip("-").isdigit() else json.loads(ci)
core.Unsupported.__init__ = lambda self, *a: (BaseException.__init__(self, *a), setattr(self, "st", "".join(traceback.format_stack()[-14:-1])))[0]
orig = core.Explorer.run
import cProfile
if os.environ.get("PROF"):
    pr = cProfile.Profile(); pr.enable()
class E(core.Explorer):
    def run(self):
        h = self.harness
        def hh(c):
            try:
                h(c)
            except core.Unsupported as e:
                print("UNSUPPORTED", e, e.st); raise
        self.harness = hh
        return orig(self)
core.Explorer = E
r = runner.sym_unit(u, case, to, False)
if os.environ.get("PROF"):
    pr.disable(); import pstats; pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
print("case", case, "paths", r["paths"], "solver", r["solver_s"], r["solver_calls"], "wall", r["wall_s"])
for n, o in r["obligations"].items():
    print("  OK " if o[0] == o[1] else "  XX ", n, o)
for f in r["failures"]:
    print("FAIL", str(f)[:600])
for f in r["undecided"]:
    print("UNDEC", f[:1500])
print("covers", r["covers"]); print(r["exc"])
