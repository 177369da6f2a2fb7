#!/usr/bin/env python3
"""addseed.py SPEC.py: validates planted bugs in a scratch copy and stores them under /verif/seeded/<id>/.
SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys
W = "/tmp/seedwork"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=300):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests") or base
    for s in specs:
        if only and s["id"] not in only:
            continue
        d = "/verif/seeded/" + s["id"]
        if os.path.exists(d) and not only:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", W])
        D = "/tmp/seeddemo"
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        open(D + "/demo.py", "w").write(s["demo"].lstrip())
        open(D + "/demo.sh", "w").write('#!/bin/bash\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\n'
                                        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                        'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        os.chmod(D + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % D, W)
        if r.returncode != 0:
            print("REJECT", s["id"], "demo fails on the clean tree:", r.stdout.decode()[-600:])
            continue
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                print("REJECT", s["id"], "edit matches", t.count(old), "times:", old[:80])
                ok = False
                break
            # every removed line must be an original one
            b = sh("git blame -s d7deb88..HEAD -- %s" % f, "/repo").stdout.decode().splitlines()
            lo = t[:t.index(old)].count("\n")
            oldl, newl = old.split("\n"), new.split("\n")
            touched = [lo + i for i, l in enumerate(oldl) if l not in newl]
            bad = [b[i] for i in touched if i < len(b) and not b[i].startswith("^d7deb88")]
            if bad:
                print("WARN", s["id"], "touches lines of fix commits:", bad[:3])
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", W).stdout.decode()
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", W) if False else sh(
            "%s -m pytest -q -x --no-header -p no:cacheprovider tftb 2>&1 | tail -5" % PY, W)
        tail = t.stdout.decode()
        r = sh("bash %s/demo.sh" % D, W)
        if "failed" in tail or "error" in tail:
            print("REJECT", s["id"], "tests:", tail[-300:])
            continue
        if r.returncode == 0:
            print("REJECT", s["id"], "demo passes with the patch")
            continue
        os.makedirs(d, exist_ok=True)
        shutil.copy(D + "/demo.py", d)
        shutil.copy(D + "/demo.sh", d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print("OK", s["id"], tail.strip().splitlines()[-1], "|", r.stdout.decode().strip().splitlines()[-1][:120])
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)


main()
