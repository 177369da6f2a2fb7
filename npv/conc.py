"""Concrete back end: the contracts evaluated numerically on the real code.

Run with the project's own interpreter:
    /opt/venv/bin/python -m npv.conc PROPERTY [options]
Prints one JSON line per contract."""
import argparse
import ast
import cmath
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Skip(Exception):
    pass


class Fail(Exception):
    pass


class Raised(Exception):
    """Exception escaping the code under test."""

    def __init__(self, e, where):
        self.e, self.where = e, where
        Exception.__init__(self, "%s: %s" % (type(e).__name__, e))


class Later:
    """A clause evaluated only when something depends on its truth (a frame run does not decide the clauses)."""

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return bool(self.f())


RT, AT = 1e-7, 1e-9
RUN_LIMIT = 40      # seconds for one call of the code under test; ordinary calls take milliseconds


class Conc:
    symbolic = False
    rounding = 1e-6      # distance from a threshold below which the sampled runs accept either side

    def __init__(self, seed, size, forced=None, literals=(), np=None):
        self.rng = random.Random(seed)
        self.size = size
        self.forced = forced or {}
        self.literals = [l for l in literals if l <= 40 * size]
        self.np = np
        self.nprng = np.random.RandomState(seed % (2 ** 31))
        self.ilog = {}
        self.checked = 0
        self.peak = 0.0      # largest magnitude compared so far: rounding of transforms is relative to it
        self.copies = {}
        self.ensured = []
        self.seed = seed
        self.frame = False
        self.results = []    # frame runs: everything the code under test returned, copied at once

    # ------------------------------------------------------ inputs
    def int(self, name, lo=0, hi=None, big=False, samp=None):
        """lo, hi: the precondition; samp: range to draw from (the proof does not use it)"""
        if name in self.forced:
            v = int(self.forced[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Skip("forced value outside the precondition")
            self.ilog[name] = v
            return v
        if hi is not None and lo is not None and hi < lo:
            raise Skip()
        if samp is not None:
            lo, hi = samp
        r = self.rng
        c = r.random()
        top = lo + self.size if hi is None else min(hi, lo + max(self.size, 1) if not big else hi)
        if big and hi is None:
            top = lo + 40 * self.size
        if c < 0.3:
            v = lo + r.choice([0, 0, 1, 1, 2, 3])
        elif c < 0.4 and hi is not None:
            v = hi - r.choice([0, 0, 1, 2])
        elif c < 0.55 and self.literals:
            v = r.choice(self.literals) + r.choice([-1, 0, 0, 1])
        else:
            v = r.randint(lo, top)
        v = max(lo, v)
        if hi is not None:
            v = min(hi, v)
        self.ilog[name] = v
        return v

    def real(self, name, lo=None, hi=None, lopen=False, hopen=False, nice=(), samp=None):
        if name in self.forced:
            v = float(self.forced[name])
            if (lo is not None and (v < lo or (lopen and v <= lo))) or \
                    (hi is not None and (v > hi or (hopen and v >= hi))):
                raise Skip()
            self.ilog[name] = v
            return v
        if samp is not None:
            lopen = lopen and samp[0] == lo
            hopen = hopen and samp[1] == hi
            lo, hi = samp
        r = self.rng
        c = r.random()
        if lo is not None and hi is not None:
            if c < 0.12 and not lopen:
                v = float(lo)
            elif c < 0.24 and not hopen:
                v = float(hi)
            elif c < 0.4 and nice:
                v = float(r.choice(list(nice)))
            elif c < 0.5:
                v = lo + (hi - lo) * r.choice([0.25, 0.5, 0.75, 0.1])
            else:
                v = r.uniform(lo, hi)
        elif lo is not None:
            v = lo + (r.choice([0.5, 1, 2, 3.7, 10, 25]) if c < 0.5 else r.uniform(1e-3, 10 + self.size))
            if c < 0.1 and not lopen:
                v = float(lo)
        elif hi is not None:
            v = hi - r.uniform(1e-3, 10)
        else:
            v = r.choice([0.0, 1.0, -1.0, 0.5]) if c < 0.3 else r.gauss(0, 3)
        if lo is not None and lopen and v <= lo:
            v = lo + 1e-3 * ((hi - lo) if hi is not None else 1)
        if hi is not None and hopen and v >= hi:
            v = hi - 1e-3 * ((hi - lo) if lo is not None else 1)
        self.ilog[name] = v
        return v

    def _arr(self, name, shape, f):
        a = f(shape)
        self.ilog[name] = a
        self.copies[name] = (a, a.copy())
        return a

    def _style(self, shape, cplx, pos, nonneg, nonzero):
        np, r = self.np, self.rng
        g = self.nprng
        c = r.random()
        if pos or nonneg:
            a = g.uniform(0.05, 1.0, size=shape)
            if nonneg and c < 0.3:
                a = a * (g.uniform(size=shape) < 0.6)
            if c > 0.85:
                a = np.ones(shape)
            return a * r.choice([1.0, 1.0, 3.0, 0.01])
        a = g.normal(size=shape)
        if cplx:
            a = a + 1j * g.normal(size=shape)
        if c < 0.12:
            a = a * (g.uniform(size=shape) < 0.3)
            if nonzero and a.size:
                a.flat[r.randrange(a.size)] = 1.0
        elif c < 0.2:
            a = np.round(a)
            if nonzero and a.size and not np.any(a):
                a.flat[0] = 1.0
        elif c < 0.3:
            a = a * r.choice([1e-3, 1e3, 30.0])
        elif c < 0.36:
            a = np.ones(shape, dtype=complex if cplx else float)
        return a

    def carray(self, name, *shape, nonzero=False, maybe_real=True):
        def f(sh):
            a = self._style(sh, True, False, False, nonzero)
            if maybe_real and self.rng.random() < 0.2:
                b = self.np.real(a).copy()
                if nonzero and not self.np.any(b) and b.size:
                    b.flat[0] = 1.0
                return b
            return a
        return self._arr(name, tuple(int(s) for s in shape), f)

    def rarray(self, name, *shape, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if lo is not None or hi is not None:
            def f(sh):
                np, c = self.np, self.rng.random()
                l, h = (lo if lo is not None else hi - 10.0), (hi if hi is not None else lo + 10.0)
                a = self.nprng.uniform(l, h, size=sh)
                if c < 0.3:
                    a = np.where(self.nprng.uniform(size=sh) < 0.3, self.nprng.choice([l, h, (l + h) / 2], size=sh), a)
                elif c < 0.4:
                    a = np.full(sh, self.rng.choice([l, h, (l + h) / 2, l + 0.3 * (h - l)]))
                return a
            return self._arr(name, tuple(int(s) for s in shape), f)
        return self._arr(name, tuple(int(s) for s in shape), lambda sh: self._style(sh, False, pos, nonneg, nonzero))

    def iarray(self, name, *shape, lo=0, hi=None):
        np = self.np
        if hi is None:
            hi = lo + self.size

        def f(sh):
            if hi < lo:
                raise Skip()
            c = self.rng.random()
            a = self.nprng.randint(lo, hi + 1, size=sh)
            if c < 0.4:
                a = np.sort(a.ravel()).reshape(sh)
            return a
        return self._arr(name, tuple(int(s) for s in shape), f)

    def darray(self, name, shape, fn, kind="f", inv=None):
        """Array given elementwise by a function of the index (derived input)."""
        np = self.np
        a = np.empty(tuple(int(s) for s in shape), dtype={"f": float, "c": complex, "i": int}[kind])
        for ix in np.ndindex(*a.shape):
            a[ix] = fn(*ix)
        self.ilog[name] = a
        self.copies[name] = (a, a.copy())
        return a

    def choice(self, name, options):
        options = list(options)
        if name in self.forced and self.forced[name] in options:
            v = self.forced[name]
        else:
            v = self.rng.choice(options)
        self.ilog[name] = v
        return v

    def int_scalar(self, v):
        return v

    def nonzero_divisors(self, why):
        pass

    def require(self, c):
        if not c:
            raise Skip()

    # ------------------------------------------------------ code
    def _module(self, m):
        return importlib.import_module(m)

    def _run(self, f, a, k):
        r = self._run0(f, a, k)
        if self.frame:
            self.results.append(frozen(r, self.np))
        return r

    def _run0(self, f, a, k):
        def late(*_):
            raise TimeoutError("no result after %d s" % RUN_LIMIT)
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(RUN_LIMIT)
        try:
            return self._run1(f, a, k)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def _run1(self, f, a, k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with self.np.errstate(all="ignore"):
                    return f(*a, **k)
        except (Skip, Fail, Raised):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            raise Raised(e, "%s:%s" % (tb[-1].filename, tb[-1].lineno))

    def call(self, mod, name, *a, **k):
        self.np.random.seed(self.seed % (2 ** 31))
        return self._run(getattr(self._module(mod), name), a, k)

    new = call

    def method(self, o, name, *a, **k):
        return self._run(getattr(o, name), a, k)

    def attr(self, o, name):
        return getattr(o, name)

    def raises(self, thunk, names=("Exception",)):
        try:
            thunk()
        except Raised as r:
            for c in type(r.e).__mro__:
                if c.__name__ in names:
                    return True
            return False
        return False

    # ------------------------------------------------------ values
    def at(self, a, *ix):
        v = self.np.asarray(a)[tuple(int(i) for i in ix)]
        return v.item() if hasattr(v, "item") else v

    def shape(self, a):
        return tuple(int(s) for s in self.np.asarray(a).shape)

    def len(self, a):
        return len(a)

    def ndim(self, a):
        return self.np.ndim(a)

    def is_complex(self, a):
        return self.np.iscomplexobj(a)

    def eq(self, a, b, scale=0.0):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        try:
            a, b = complex(a), complex(b)
        except TypeError:
            return a == b
        if cmath.isnan(a) or cmath.isnan(b):
            return False
        if cmath.isinf(a) or cmath.isinf(b):
            return a == b
        self.peak = max(self.peak, abs(a), abs(b))
        return abs(a - b) <= RT * (abs(a) + abs(b) + abs(scale)) + AT * max(1.0, abs(scale)) + 1e-11 * self.peak

    def ieq(self, a, b):
        return a == b

    def leq(self, a, b):
        return (not math.isnan(a)) and (not math.isnan(b)) and a <= b + RT * (abs(a) + abs(b)) + AT

    def is_inf(self, a):
        return math.isinf(a)

    def num(self, a):
        return float(a) if isinstance(a, bool) else a

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or (b() if callable(b) else b)

    def ite(self, c, a, b):
        v = a if c else b
        return v() if callable(v) else v

    def sum(self, n, f):
        s = 0
        for i in range(int(n)):
            s = s + f(i)
        return s

    def dft(self, n, f, k):
        n = int(n)
        s = 0
        for m in range(n):
            v = f(m)
            if v != 0:
                s += v * cmath.exp(-2j * math.pi * ((m * k) % n) / n)
        return s

    def forall(self, ranges, f, now=False):
        if self.frame and not now:
            return Later(lambda: self.forall(ranges, f, True))
        rs = []
        for r in ranges:
            lo, hi = (0, r) if not isinstance(r, tuple) else r
            rs.append((int(lo), int(hi)))
        tot = 1
        for lo, hi in rs:
            tot *= max(0, hi - lo)
        if tot == 0:
            return True
        lim = 60 if len(rs) > 1 else 80
        if tot <= lim:
            idx = [()]
            for lo, hi in rs:
                idx = [x + (i,) for x in idx for i in range(lo, hi)]
        else:
            idx = set()
            for _ in range(lim):
                t = []
                for lo, hi in rs:
                    c = self.rng.random()
                    if c < 0.15:
                        t.append(lo)
                    elif c < 0.3:
                        t.append(hi - 1)
                    else:
                        t.append(self.rng.randrange(lo, hi))
                idx.add(tuple(t))
        for ix in idx:
            self.checked += 1
            if not f(*ix):
                for jx in idx:
                    f(*jx)           # updates self.peak
                if f(*ix):
                    continue
                self.witness = ix
                return False
        return True

    def exists(self, n, f):
        lo, hi = (0, n) if not isinstance(n, tuple) else n
        return any(f(i) for i in range(int(lo), int(hi)))

    # ------------------------------------------------------ math
    pi = math.pi
    I = 1j

    def conj(self, z):
        return complex(z).conjugate() if isinstance(z, complex) else z

    def re(self, z):
        return complex(z).real

    def im(self, z):
        return complex(z).imag

    def abs(self, z):
        return abs(z)

    def abs2(self, z):
        z = complex(z)
        return z.real ** 2 + z.imag ** 2

    def exp(self, x):
        return cmath.exp(x) if isinstance(x, complex) else math.exp(min(x, 700))

    def cis(self, t):
        return cmath.exp(2j * math.pi * t)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def arccos(self, x):
        return math.acos(min(1.0, max(-1.0, x)))

    def angle(self, z):
        return cmath.phase(z) / (2 * math.pi)

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.0

    def log(self, x):
        return math.log(x)

    def log2(self, x):
        return math.log2(x)

    def floor(self, x):
        return math.floor(x)

    def ceil(self, x):
        return math.ceil(x)

    def round(self, x):
        return int(round(x)) if not hasattr(x, "dtype") else int(self.np.round(x))

    def trunc(self, x):
        return int(x)

    def min(self, *a):
        return min(a)

    def max(self, *a):
        return max(a)

    def pow(self, a, b):
        return a ** b

    def ipow(self, b, e):
        return b ** e

    def mod(self, a, b):
        return a % b

    def amax(self, n, f):
        return max(f(i) for i in range(int(n)))

    def sorted(self, n, f, k):
        return sorted(f(i) for i in range(int(n)))[int(k)]

    def hamming(self, n, i):
        if n == 1:
            return 1.0
        return 0.54 - 0.46 * math.cos(2 * math.pi * i / (n - 1))

    def ones(self, *shape):
        return self.np.ones(tuple(int(s) for s in shape))

    def hilb(self, n, f, k):
        """k-th sample of the Hilbert transform of f (scipy convention)."""
        np = self.np
        from scipy.signal import hilbert
        key = tuple(complex(f(i)).real for i in range(int(n)))
        return float(np.imag(hilbert(np.array(key)))[int(k)])

    # ------------------------------------------------------ obligations
    def ensure(self, name, c):
        self.checked += 1
        self.ensured.append(name)
        if not self.frame and not bool(c):
            raise Fail(name)

    def unchanged(self, *names):
        np = self.np
        for n in names:
            a, c = self.copies[n]
            self.checked += 1
            if a.shape != c.shape or not np.array_equal(a, c, equal_nan=True):
                raise Fail("input %s is not modified" % n)

    def same(self, name, a, b):
        np = self.np
        self.checked += 1
        if self.frame:
            return

        def eqv(x, y):
            if isinstance(x, (tuple, list)):
                return len(x) == len(y) and all(eqv(p, q) for p, q in zip(x, y))
            x, y = np.asarray(x), np.asarray(y)
            return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True))
        if not eqv(a, b):
            raise Fail(name)

    def copy(self, a):
        return self.np.array(a, copy=True)

    def summary_of(self, *a):
        return None


# ---------------------------------------------------------------- literals
def mine_literals(repo, top=700):
    out = set()
    for root, dirs, files in os.walk(os.path.join(repo, "tftb")):
        dirs[:] = [d for d in dirs if d != "tests"]
        for fn in files:
            if not fn.endswith(".py"):
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(open(os.path.join(root, fn), encoding="utf-8").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
                        isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
                    n.body = []
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    if float(n.value).is_integer() and 3 <= n.value <= top:
                        out.add(int(n.value))
    return sorted(out)


def to_json(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size > 64:
            return "array%s %s (rerun with the seed to rebuild)" % (v.shape, v.dtype)
        if np.iscomplexobj(v):
            return {"re": np.real(v).tolist(), "im": np.imag(v).tolist()}
        return v.tolist()
    if isinstance(v, complex):
        return [v.real, v.imag]
    return v


def frozen(v, np):
    if isinstance(v, (tuple, list)):
        return tuple(frozen(x, np) for x in v)
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", np.array(v.filled(0)), np.array(np.ma.getmaskarray(v)))
    if isinstance(v, (np.ndarray, bool, int, float, complex, np.generic)):
        return np.array(v)
    return type(v).__name__


def flat(v):
    if isinstance(v, (tuple, list)):
        for x in v:
            yield from flat(x)
    elif not isinstance(v, str):
        yield v


def agree(a, b, np):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(agree(x, y, np) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, (str, tuple)):
        return isinstance(b, str) and a == b
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fc" and b.dtype.kind not in "fc":
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        fin = np.abs(np.where(np.isfinite(a), a, 0))
        return bool(np.allclose(a, b, rtol=1e-7, atol=1e-9 * max(1.0, fin.max() if fin.size else 0.0), equal_nan=True))


def run_frame(c, seed, size, forced, literals, np):
    """One run of the calls a contract makes: -> (status, B, message).  The property decided is the frame (no input
    array is modified), not the contract's own clauses."""
    B = Conc(seed, size, forced, literals, np)
    B.frame = True
    try:
        c.fn(B)
    except Skip:
        return "skip", B, None
    except (Fail, Raised):
        pass
    except Exception:
        pass          # the contract could not go on with what the code returned: its own property reports that
    try:
        B.unchanged(*sorted(B.copies))
    except Fail as e:
        return "fail", B, str(e)
    return "ok", B, None


def fresh_modules():
    for m in [m for m in sys.modules if m == "tftb" or m.startswith("tftb.")]:
        del sys.modules[m]


def frame_pair(c, a, np):
    """Runs the same calls twice in a row."""
    st, B, msg = run_frame(c, *a, np)
    if st != "ok":
        return st, B, msg
    st2, B2, msg2 = run_frame(c, *a, np)
    if st2 == "fail":
        return st2, B2, msg2
    if st2 == "ok" and not agree(tuple(B.results), tuple(B2.results), np):
        return "fail", B, "repeating the calls gives the same results"
    return "ok", B, None


def run_one(c, seed, size, forced, literals, np):
    if c.frame:
        return frame_pair(c, (seed, size, forced, literals), np)
    B = Conc(seed, size, forced, literals, np)
    try:
        c.fn(B)
        return "ok", B, None
    except Skip:
        return "skip", B, None
    except Fail as e:
        return "fail", B, str(e) + (" at index %s" % (B.witness,) if hasattr(B, "witness") else "")
    except Raised as e:
        return "fail", B, "no exception raised: %s at %s" % (e, e.where)


def shape_of_run(prop, contract, seed, size, forced, msg, B):
    return {"property": prop, "contract": contract, "seed": seed, "size": size, "forced": forced,
            "failed": msg, "inputs": {k: to_json(v) for k, v in B.ilog.items()}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--contract")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--time", type=float, default=20.0)
    ap.add_argument("--iters", type=int, default=400)
    ap.add_argument("--forced", default="[]")
    ap.add_argument("--replay")
    o = ap.parse_args()
    sys.path.insert(0, o.repo)
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import numpy as np
    from npv import registry
    cs = registry.load_all().get(o.prop, [])
    if o.replay:
        d = json.load(open(o.replay))
        c = [x for x in cs if x.name == d["contract"]][0]
        lits = mine_literals(o.repo)
        st, B, msg = run_one(c, d["seed"], d["size"], d["forced"], lits if d.get("lits") else [], np)
        B0 = B
        if st != "fail" and d.get("history"):
            # the failure may depend on the calls made before in the same process
            for h in d["history"]:
                run_one(c, h[0], h[1], h[2], lits if h[3] else [], np)
            st, B, msg = run_one(c, d["seed"], d["size"], d["forced"], lits if d.get("lits") else [], np)
            if c.frame and st == "ok" and not agree(tuple(B0.results), tuple(B.results), np):
                st, msg = "fail", "the results do not depend on earlier calls"
        print(json.dumps({"status": st, "failed": msg}))
        sys.exit(1 if st == "fail" else 0)
    lits = mine_literals(o.repo)
    for c in cs:
        if not c.concrete or (o.contract and c.name != o.contract):
            continue
        t0 = time.time()
        n = ok = skip = 0
        checked = 0
        fail = None
        sample = None
        names = set()
        forced = json.loads(o.forced)
        budget = o.time * c.weight
        iters = int(o.iters * c.weight)
        i = 0
        hist = []
        kept = []
        while i < iters + 6 * len(forced) and time.time() - t0 < budget:
            if i < 6 * len(forced):
                fo, size, ls = forced[i // 6], 12, []
            else:
                fo = {}
                j = i - 6 * len(forced)
                size = (3, 5, 8, 12, 20, 12, 8, 5)[j % 8]
                ls = []
                if j % 16 == 7:
                    size = 60
                if j % 4 == 3 and size >= 12 or j % 16 == 7:
                    ls = lits
            seed = (o.seed * 1000003 + i * 7919) % (2 ** 31)
            i += 1
            st, B, msg = run_one(c, seed, size, fo, ls, np)
            n += 1
            checked += B.checked
            names.update(B.ensured)
            if st == "ok":
                ok += 1
                if sample is None or (n < 12 and len(B.ilog) > len(sample)):
                    sample = {k: to_json(v) for k, v in B.ilog.items()}
            elif st == "skip":
                skip += 1
            else:
                fail = shape_of_run(o.prop, c.name, seed, size, fo, msg, B)
                fail["lits"] = bool(ls)
                fail["history"] = hist
                break
            hist.append((seed, size, fo, bool(ls)))
            if c.frame and st == "ok" and len(kept) < 40 and sum(r.size for r in flat(B.results)) < 200000:
                kept.append((seed, size, fo, ls, B.results))
        if c.frame and not fail:
            fresh_modules()
            for seed, size, fo, ls, res in reversed(kept):
                if time.time() - t0 > 2 * budget:
                    break
                st, B, msg = run_frame(c, seed, size, fo, ls, np)
                n += 1
                checked += 1
                if st == "ok" and not agree(tuple(res), tuple(B.results), np):
                    fail = shape_of_run(o.prop, c.name, seed, size, fo, "the results do not depend on earlier calls", B)
                    fail["lits"] = bool(ls)
                    fail["history"] = hist
                    break
        print(json.dumps({"contract": c.name, "runs": n, "ok": ok, "skipped": skip, "checks": checked,
                          "ensures": sorted(names), "sample": sample, "seconds": round(time.time() - t0, 2), "fail": fail}))
        sys.stdout.flush()


if __name__ == "__main__":
    main()
