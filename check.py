#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property.  Deciding step: every obligation generated from the
current source by the verification-condition generator (npv.sym) is discharged
(npv.prove + z3).  The same contracts are run on the real code (npv.conc) to
replay counterexamples and to cross-check the library contracts.

exit 0  the property held on everything explored
exit 1  VIOLATION line printed
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/usr/local/bin/python3-vt"
if not os.path.exists(VT):
    VT = "python3-vt"
REAL = "/opt/venv/bin/python"
BASE_ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real and complex arithmetic (rounding, overflow and NaN are not "
    "part of the proof; the concrete runs use a 1e-7 relative tolerance)",
    "integers are mathematical integers; numpy integer widths are not modelled",
    "numpy/scipy functions are trusted through the contracts in npv/npmodel.py (list in coverage.library_contracts)",
    "the verification-condition generator npv/interp.py and npv/npmodel.py (Python/numpy subset semantics) and the "
    "simplifier npv/terms.py + npv/prove.py are trusted; z3 is trusted for the residual arithmetic",
    "the code under test is called with plain numpy arrays / Python numbers of the kinds each contract declares",
]


def env(seed):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e


def run(cmd, limit, seed):
    """-> (stdout, error or None)"""
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(seed), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=limit)
        out = p.stdout.decode("utf-8", "replace")
        err = None if p.returncode == 0 else "exit %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1500:])
        return out, err
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b"").decode("utf-8", "replace"), "timeout"


def last_json(out):
    r = None
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                r = json.loads(l)
            except ValueError:
                pass
    return r


def symbolic(c, o):
    total = max(c.budget, 120.0) if o.tier == "quick" else 600.0
    cmd = [VT, "-m", "npv.symrun", c.prop, c.name, "--repo", o.repo, "--total", str(total)]
    out, err = run(cmd, total + 60, o.seed)
    r = last_json(out)
    if r is None:
        r = {"error": err or "no output", "obligations": [], "unsupported": []}
    return r


def concrete(c, o, secs, iters, forced=(), seed=None):
    cmd = [REAL, "-m", "npv.conc", c.prop, "--contract", c.name, "--repo", o.repo, "--seed",
           str(o.seed if seed is None else seed), "--time", str(secs), "--iters", str(iters),
           "--forced", json.dumps(list(forced))]
    out, err = run(cmd, secs * max(c.weight, 1) * 2 + 60, o.seed)
    r = last_json(out)
    if r is None:
        r = {"contract": c.name, "runs": 0, "ok": 0, "skipped": 0, "checks": 0, "fail": None,
             "error": err or "no output", "seconds": 0.0, "ensures": []}
    return r


def replay_confirmed(c, o, path):
    out, err = run([REAL, "-m", "npv.conc", c.prop, "--repo", o.repo, "--replay", path], 120, o.seed)
    r = last_json(out)
    return r is not None and r.get("status") == "fail"


def known_findings(prop):
    """lines "finding: property=<id> contract=<name> fails=<text>: <what>" (committed; never written at run time)"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                d = dict(x.split("=", 1) for x in l.split(" | ") if "=" in x)
                res.append((d.get("contract", ""), d.get("fails", ""), l))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    o = ap.parse_args()
    if o.tier not in ("quick", "thorough"):
        o.tier = "quick"
    t0 = time.time()
    from npv import registry
    cs = registry.load_all().get(o.prop, [])
    if not cs:
        print("no contract for", o.prop)
        sys.exit(2)
    quick = o.tier == "quick"
    csecs, citers = (12.0, 250) if quick else (120.0, 4000)
    reps = os.path.join(HERE, "replays")
    os.makedirs(reps, exist_ok=True)
    res = {}
    viol = []           # (contract, replay path, suffix)
    notes = []

    def report(c, fail, extra=None):
        body = dict(fail)
        body["replay_with"] = "%s -m npv.conc %s --replay <this file>  (cwd /verif, PYTHONPATH=/verif)" % (REAL, o.prop)
        if extra:
            body["verifier"] = extra
        h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(reps, "%s-%s-%s.json" % (o.prop, c.name, h))
        with open(p, "w") as f:
            json.dump(body, f, indent=1, default=str)
        return p

    def one(c):
        s = symbolic(c, o) if c.symbolic else None
        bad = [x for x in (s or {}).get("obligations", []) if x["status"] != "proved"]
        hard = [x for x in bad if not str(x["why"]).startswith(("time", "abstracted"))]
        forced = []
        for x in bad:
            if x.get("model"):
                m = {k: v for k, v in x["model"].items() if isinstance(v, (int, float))}
                if m and m not in forced:
                    forced.append(m)
        forced = forced[:12]
        expect_ok = c.expect == "proved" and c.symbolic
        suspicious = expect_ok and (hard or bad or s.get("unsupported") or s.get("error"))
        k = None
        if c.concrete:
            k = concrete(c, o, csecs * (3 if suspicious else 1), citers * (4 if suspicious else 1), forced)
        return c, s, k, bad, hard

    with cf.ThreadPoolExecutor(max_workers=o.jobs) as ex:
        results = list(ex.map(one, cs))

    known = known_findings(o.prop)
    said = set()
    nobl = ndis = 0
    per = []
    bounded = []
    funcs, lib = set(), set()
    queries, solver = 0, 0.0
    evals = distinct = 0
    samples = []
    broken = []
    for c, s, k, bad, hard in results:
        fail = (k or {}).get("fail")
        d = {"contract": c.name, "functions": list(c.functions), "note": c.note}
        if s is not None:
            obls = s.get("obligations", [])
            nobl += len(obls)
            ndis += sum(x["status"] == "proved" for x in obls)
            d.update(obligations=len(obls), discharged=sum(x["status"] == "proved" for x in obls),
                     undischarged=[{q: x[q] for q in ("name", "where", "status", "why")} for x in bad][:20],
                     paths=s.get("paths"), reachable_paths=s.get("reachable"), unsupported=s.get("unsupported"),
                     abstracted=s.get("abstracted"), solver_s=s.get("solver_s"), wall_s=s.get("wall_s"),
                     names=sorted(set(x["name"] for x in obls))[:60])
            if s.get("error"):
                d["error"] = s["error"]
            funcs.update(s.get("functions", []))
            lib.update(s.get("library", []))
            queries += s.get("queries", 0)
            solver += s.get("solver_s", 0.0)
            full = (not bad and not s.get("unsupported") and not s.get("error") and obls and s.get("reachable", 0) > 0)
            d["proved"] = bool(full)
        else:
            full = False
            d["proved"] = False
        if not full:
            bounded.append(c.name)
        if k is not None:
            d["concrete"] = {q: k.get(q) for q in ("runs", "ok", "skipped", "checks", "seconds", "error")}
            evals += k.get("runs", 0)
            distinct += k.get("ok", 0)
            if k.get("sample"):
                samples.append({"contract": c.name, "inputs": k["sample"]})
            if k.get("error"):
                broken.append("%s: concrete run: %s" % (c.name, k["error"][-400:]))
            elif not k.get("ok") and not fail:
                broken.append("%s: no concrete run met the precondition" % c.name)
        per.append(d)
        if fail:
            kf = [x for x in known if x[0] == c.name and x[1] and x[1] in fail["failed"]]
            if kf:
                if kf[0][2] not in said:
                    said.add(kf[0][2])
                    print("KNOWN-FINDING: property=%s %s" % (o.prop, kf[0][2].split(" | ")[-1]))
                continue
            p = report(c, fail, bad[:5])
            if replay_confirmed(c, o, p):
                viol.append((c, p, ""))
            else:
                notes.append("%s: concrete failure did not replay: %s" % (c.name, fail["failed"]))
        elif s is not None and c.expect == "proved" and hard:
            p = report(c, {"property": o.prop, "contract": c.name, "failed": "undischarged obligation: %s (%s) [%s]"
                           % (hard[0]["name"], hard[0]["where"], hard[0]["status"])}, hard[:10])
            viol.append((c, p, " no-failing-input-found"))
        elif s is not None and c.expect == "proved" and not full:
            notes.append("%s: not proved on this tree (%s); decided by the bounded concrete runs only"
                         % (c.name, s.get("error") or "; ".join(s.get("unsupported") or []) or "time limit or no obligation"))

    proved = set(d["contract"] for d in per if d["proved"])
    for d, (c, _, _, _, _) in zip(per, results):
        if d["proved"] and c.uses:
            need = [n for q in c.uses for n in registry.JUSTIFIED_BY[q]]
            miss = [n for n in need if not any(x == n or (c.frame and x.endswith("_" + n)) for x in proved)]
            d["callee_contracts"] = dict((q, list(registry.JUSTIFIED_BY[q])) for q in c.uses)
            if miss:
                d["proved"] = False
                bounded.append(c.name)
                notes.append("%s: takes a callee by a contract that is not proved on this tree (%s)"
                             % (c.name, ", ".join(miss)))
    allproved = not bounded
    level = "proof" if ndis and not any(c.expect != "proved" or not c.symbolic for c in cs) else "other"
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "python3-vt -m npv.symrun %s <contract>" % o.prop,
        "trusted_base": ["npv VC generator (npv/interp.py, npv/npmodel.py, npv/sym.py)",
                         "npv simplifier and prover (npv/terms.py, npv/prove.py)", "z3 (python z3-solver)",
                         "library contracts in npv/npmodel.py"],
        "backend": "npv.prove normaliser + z3", "solver_queries": queries, "solver_s": round(solver, 2),
        "functions_under_contract": sorted(funcs), "library_contracts": sorted(lib),
        "contracts": per, "fully_proved": sorted(d["contract"] for d in per if d["proved"]),
        "bounded_only": sorted(bounded),
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "concrete cross-check: inputs drawn per contract from the declared preconditions with sizes 3..60 and "
                "boundary-biased values; non-trivial = precondition met and every clause evaluated",
        "samples": samples[:6],
        "explanation": "Every clause of the contracts under fully_proved is a discharged obligation for all inputs; "
                       "contracts under bounded_only are checked on sampled inputs only (bound: the counts above).",
        "notes": notes,
    }
    ev = {"property": o.prop, "tier": o.tier, "seed": o.seed, "level": level, "coverage": cov,
          "assumptions": BASE_ASSUMPTIONS + sorted(set(c.note for c in cs if c.note)),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", o.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n in notes:
        print("NOTE", n)
    print("%s %s: %d contracts, %d/%d obligations discharged, %d concrete runs, %.1fs"
          % (o.prop, o.tier, len(cs), ndis, nobl, evals, time.time() - t0))
    # a violation with a failing input takes precedence in the report
    viol.sort(key=lambda v: v[2])
    if viol and not viol[0][2]:
        viol = [v for v in viol if not v[2]]
    for c, p, sfx in viol:
        print("VIOLATION property=%s replay=%s%s" % (o.prop, p, sfx))
    if viol:
        sys.exit(1)
    if broken:
        for b in broken:
            print("CHECK-ERROR", b)
        if any("no concrete run" in b or "concrete run" in b for b in broken) and not allproved:
            sys.exit(2)
    if nobl == 0 and evals == 0:
        print("CHECK-ERROR nothing was checked")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
