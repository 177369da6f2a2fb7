"""Discharge the obligations of one contract; prints one JSON object.
    python3-vt -m npv.symrun PROPERTY CONTRACT [--repo DIR] [--total S] [--budget S]"""
import argparse
import json
import os
import resource
import sys
import time
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("contract")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--total", type=float, default=200.0)
    ap.add_argument("--budget", type=float, default=None)
    o = ap.parse_args()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = {"property": o.prop, "contract": o.contract}
    t0 = time.time()
    try:
        from npv import registry, sym, smt, npmodel
        from npv.summaries import SUMMARIES
        c = [c for c in registry.load_all()[o.prop] if c.name == o.contract][0]
        smt.reset()
        r = sym.Runner(o.repo, budget=o.budget or c.budget, total=o.total, summaries=SUMMARIES).run(c)
        out.update(paths=r.paths, reachable=r.reachable, infeasible=r.infeasible, unsupported=sorted(set(r.unsup)),
                   obligations=[{"name": x.name, "where": x.where, "status": x.status, "why": str(x.why)[:300],
                                 "model": x.model, "secs": round(x.secs, 3), "path": x.path} for x in r.obls],
                   abstracted=sorted(set(str(a) for a in r.unsup_abs)), functions=sorted(r.I.funcs),
                   library=sorted(npmodel.USED), queries=smt.STATS["queries"], solver_s=round(smt.STATS["time"], 3))
    except MemoryError:
        out["error"] = "out of memory"
    except BaseException as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["traceback"] = traceback.format_exc()[-3000:]
    out["wall_s"] = round(time.time() - t0, 2)
    print(json.dumps(out, default=str))


if __name__ == "__main__":
    main()
