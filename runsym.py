"""Developer tool: python3-vt runsym.py PROPERTY [contract] [-q]"""
import sys, time
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings; warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
from npv import registry, sym, smt
cs = registry.load_all()
repo = "/repo"
for a in sys.argv[1:]:
    if a.startswith("--repo="):
        repo = a[7:]
args = [a for a in sys.argv[1:] if not a.startswith("-")]
try:
    from npv.summaries import SUMMARIES
except ImportError:
    SUMMARIES = {}
for c in cs.get(args[0], []):
    if len(args) > 1 and c.name != args[1]:
        continue
    if not c.symbolic:
        print(c.prop, c.name, "concrete only"); continue
    t0 = time.time()
    smt.reset()
    r = sym.Runner(repo, budget=c.budget, verbose="-q" not in sys.argv, summaries=SUMMARIES).run(c)
    print(c.prop, c.name, "paths", r.paths, "reach", r.reachable, "infeasible", r.infeasible, "obls", len(r.obls),
          "proved", sum(o.status == "proved" for o in r.obls), "unsup", sorted(set(r.unsup)), "%.1fs" % (time.time() - t0),
          "abstr", r.unsup_abs)
