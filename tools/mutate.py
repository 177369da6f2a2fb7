#!/usr/bin/env python3
"""mutate.py [--jobs N] [--every K] [--only SUBSTR]: mutation test of the bounded half of the checks.
Every function under contract is mutated (operators, constants, comparisons, deleted statements, swapped library calls);
each mutant is run, in a scratch copy of /repo, through the sampled runs of the properties that list the function.
Survivors that also pass the project's tests are printed (development tool; no check uses it)."""
import argparse, ast, copy, json, os, shutil, subprocess, sys, threading, queue
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from npv import registry
PY = "/opt/venv/bin/python"
SWAP = {"floor": "ceil", "ceil": "floor", "round": "floor", "min": "max", "max": "min", "fftshift": "ifftshift", "ifftshift": "fftshift",
        "fft": "ifft", "ifft": "fft", "real": "imag", "conj": "abs", "sin": "cos", "cos": "sin", "amax": "amin", "zeros": "ones",
        "logical_and": "logical_or", "logical_or": "logical_and", "argmax": "argmin", "fix": "floor", "cumsum": "cumprod"}


def variants(node):
    """yield (description, replacement node)"""
    if isinstance(node, ast.BinOp):
        for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult), (ast.FloorDiv, ast.Div), (ast.Mod, ast.FloorDiv)):
            if isinstance(node.op, a):
                n = copy.deepcopy(node); n.op = b()
                yield "%s->%s" % (a.__name__, b.__name__), n
        if isinstance(node.op, (ast.Add, ast.Sub)):
            yield "drop right", node.left
        if isinstance(node.op, (ast.Mult, ast.Div)):
            yield "drop factor", node.left
    elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        for v in ((node.value + 1, node.value - 1) if isinstance(node.value, int) else (node.value * 1.01, node.value + 0.5)):
            yield "%r->%r" % (node.value, v), ast.Constant(v)
    elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
        yield "flip", ast.Constant(not node.value)
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.NotEq, ast.Eq), (ast.Is, ast.IsNot), (ast.IsNot, ast.Is)):
            if isinstance(node.ops[0], a):
                n = copy.deepcopy(node); n.ops = [b()]
                yield "%s->%s" % (a.__name__, b.__name__), n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "and/or", n
        yield "drop clause", node.values[0]
        yield "drop first clause", node.values[-1]
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        yield "drop unary", node.operand
    elif isinstance(node, ast.Call):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm in SWAP:
            n = copy.deepcopy(node)
            if isinstance(f, ast.Attribute):
                n.func.attr = SWAP[nm]
            else:
                n.func.id = SWAP[nm]
            yield "%s->%s" % (nm, SWAP[nm]), n
        if nm in ("conj", "abs", "real", "int", "round", "copy", "float", "fftshift", "ravel") and len(node.args) == 1:
            yield "drop " + nm, node.args[0]
        if nm == "copy" and not node.args and isinstance(f, ast.Attribute):
            yield "drop .copy()", f.value


class Sub(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, n):
        if n is self.target:
            return self.new
        return self.generic_visit(n)


def mutants(tree, qual):
    body = tree.body
    fn = None
    for q in qual:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == q:
                fn = n; body = n.body; break
        else:
            return
    if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
        stm = fn.body[1:]
    else:
        stm = fn.body
    for top in stm:
        for n in ast.walk(top):
            for d, r in variants(n):
                yield n.lineno, d, ast.unparse(n)[:60], (n, r)
            if isinstance(n, (ast.AugAssign, ast.Expr, ast.If, ast.Assign)) and not isinstance(getattr(n, "value", None), ast.Constant):
                yield n.lineno, "delete", ast.unparse(n)[:60].replace("\n", " "), (n, ast.Pass())
    # defaults
    for n in fn.args.defaults:
        for d, r in variants(n):
            yield n.lineno, "default " + d, ast.unparse(n), (n, r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--extra", default="")       # qualified=PROP,PROP
    ap.add_argument("--iters", default="200")
    o = ap.parse_args()
    fm = {}
    for p, l in registry.load_all().items():
        for c in l:
            for f in c.functions:
                fm.setdefault(f, set()).add(p)
    for e in filter(None, o.extra.split(";")):
        a, b = e.split("=")
        fm.setdefault(a, set()).update(b.split(","))
    work = queue.Queue()
    k = 0
    for f in sorted(fm):
        if o.only and o.only not in f:
            continue
        parts = f.split(".")
        for i in range(len(parts), 0, -1):
            path = "/".join(parts[:i]) + ".py"
            if not os.path.exists("/repo/" + path):
                path = "/".join(parts[:i]) + "/__init__.py"
            if os.path.exists("/repo/" + path):
                break
        src = open("/repo/" + path, encoding="utf-8").read()
        ms = list(mutants(ast.parse(src), parts[i:]))
        for j in range(len(ms)):
            k += 1
            if k % o.every == 0:
                work.put((f, path, j))
    print("mutants", work.qsize(), flush=True)
    lock = threading.Lock()
    st = {"killed": 0, "tests": 0, "survived": 0, "bad": 0}

    def worker(w):
        d = "/tmp/mut%d" % w
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        env = dict(os.environ, PYTHONPATH=H, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        while True:
            try:
                f, path, j = work.get_nowait()
            except queue.Empty:
                break
            src = open("/repo/" + path, encoding="utf-8").read()
            parts = f.split(".")
            q = parts[len(path[:-3].replace("/__init__", "").split("/")):]
            tree = ast.parse(src)
            ms = list(mutants(tree, q))
            line, desc, text, (n, r) = ms[j]
            try:
                new = ast.unparse(ast.fix_missing_locations(Sub(n, r).visit(tree)))
                compile(new, path, "exec")
            except Exception:
                st["bad"] += 1
                continue
            open(d + "/" + path, "w", encoding="utf-8").write(new)
            killed = False
            for p in sorted(fm[f]):
                try:
                    r = subprocess.run([PY, "-W", "ignore", "-m", "npv.conc", p, "--repo", d, "--iters", o.iters, "--time", "6"],
                                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
                    out = r.stdout.decode()
                except subprocess.TimeoutExpired:
                    out = ""
                    killed = True
                if '"fail": {' in out or '"fail":{' in out:
                    killed = True
                elif r.returncode:
                    killed = True     # import failure
                if killed:
                    break
            if killed:
                st["killed"] += 1
            else:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tftb"], cwd=d, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if t.returncode:
                    st["tests"] += 1
                else:
                    st["survived"] += 1
                    with lock:
                        print("SURVIVED %s:%d [%s] %s  (%s)" % (f, line, desc, text, ",".join(sorted(fm[f]))), flush=True)
            open(d + "/" + path, "w", encoding="utf-8").write(src)
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(o.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(st)


main()
