"""Symbolic back end: executes a contract on the real source with symbolic
inputs and discharges every obligation with the prover."""
import time
from fractions import Fraction
from . import terms as T
from . import smt
from . import prove as PR
from . import interp as IN
from .interp import Interp, Sc, Arr, Ref, Lst, Obj, Infeasible, Unsupported, RaiseEx, Trace, IDX, at, as_num, sc
from .terms import P, Poly, Formula, TRUE, FALSE, And, Or, Not


def npmodel():
    from . import npmodel as m
    return m


class Obl:
    __slots__ = ("name", "where", "status", "why", "model", "secs", "path")

    def __init__(self, name, where, status, why, model, secs, path):
        self.name, self.where, self.status, self.why, self.model, self.secs, self.path = \
            name, where, status, why, model, secs, path


class Unsup(Exception):
    pass


class Sym:
    symbolic = True
    rounding = 0
    pi = T.PI
    I = T.IMAG

    def __init__(self, runner, I):
        self.r, self.I_ = runner, I
        self.inputs = {}
        self.n_ensure = 0

    # ------------------------------------------------------ inputs
    def int(self, name, lo=0, hi=None, big=False, samp=None):
        v = T.var(name, "int")
        self.inputs[name] = v
        if lo is None:
            if hi is not None:
                self.I_.assume(T.le(v, hi))
            return v
        lo = P(lo)
        if lo.const() is not None and lo.const() >= 0:
            T.declare_nonneg(v)
        self.I_.assume(T.ge(v, lo))
        if hi is not None:
            self.I_.assume(T.le(v, hi))
        return v

    def real(self, name, lo=None, hi=None, lopen=False, hopen=False, nice=(), samp=None):
        v = T.var(name, "real")
        self.inputs[name] = v
        if lo is not None:
            self.I_.assume(T.gt(v, P(lo)) if lopen else T.ge(v, P(lo)))
        if hi is not None:
            self.I_.assume(T.lt(v, P(hi)) if hopen else T.le(v, P(hi)))
        return v

    def _input(self, name, shape, k, inv=None):
        I = self.I_
        a = I.fresh_arr(name, [P(s) for s in shape], k, name=name)
        if inv is not None:
            smt.ELEM_INV[name] = inv
        r = I.mk(a)
        I.inputs[I.group[r.cell]] = name
        return r

    def _nz(self, name, shape):
        """At least one element is non-zero (witness)."""
        ix = []
        for d, s in enumerate(shape):
            w = T.var("%s.nz%d" % (name, d), "int")
            self.I_.assume(And(T.ge(w, 0), T.lt(w, P(s))))
            ix.append(w)
        return ix

    def carray(self, name, *shape, nonzero=False, maybe_real=True):
        r = self._input(name, shape, "c")
        if nonzero:
            ix = self._nz(name, shape)
            self.I_.assume(Not(T.eq0(T.elem(name, tuple(ix), False))))
        return r

    def rarray(self, name, *shape, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        inv = None
        if lo is not None or hi is not None:
            inv = lambda idx, v: And(T.ge(v, P(lo)) if lo is not None else TRUE, T.le(v, P(hi)) if hi is not None else TRUE)
        if pos:
            inv = lambda idx, v: T.gt(v, 0)
        elif nonneg:
            inv = lambda idx, v: T.ge(v, 0)
        r = self._input(name, shape, "f", inv)
        if nonzero:
            ix = self._nz(name, shape)
            self.I_.assume(Not(T.eq0(T.elem(name, tuple(ix), True))))
        return r

    def iarray(self, name, *shape, lo=0, hi=None):
        lo = P(lo)
        inv = lambda idx, v: And(T.ge(v, lo), T.le(v, P(hi)) if hi is not None else TRUE)
        return self._input(name, shape, "i", inv)

    def darray(self, name, shape, fn, kind="f", inv=None):
        I = self.I_
        ix = [IDX(i) for i in range(len(shape))]
        r = I.mk(Arr([P(s) for s in shape], kind, P(fn(*ix))))
        I.inputs[I.group[r.cell]] = name
        return r

    def choice(self, name, options):
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.I_.branch(T.bvar("%s==%d" % (name, i))):
                self.r.choices[name] = o
                return o
        self.r.choices[name] = options[-1]
        return options[-1]

    def nonzero_divisors(self, why):
        """From here on a divisor that cannot be shown non-zero is assumed to be (recorded as an assumption)."""
        self.r.assume_div = why

    def require(self, c):
        self.I_.assume(T.B(c))

    # ------------------------------------------------------ code
    def wrap(self, v):
        if isinstance(v, Sc):
            return v.v
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        if isinstance(v, Lst):
            return [self.wrap(x) for x in self.I_.get(v)]
        if isinstance(v, IN.Poison):
            raise Unsupported(v.why)
        return v

    def unwrap(self, v):
        if isinstance(v, Poly):
            return Sc(v, "i" if v.is_int else ("f" if v.is_real else "c"), True)
        if isinstance(v, Formula):
            return Sc(v, "b", True)
        if isinstance(v, (bool, int, float, complex, Fraction)):
            return sc(v)
        if isinstance(v, tuple):
            return tuple(self.unwrap(x) for x in v)
        if isinstance(v, list):
            return self.I_.lst([self.unwrap(x) for x in v])
        return v

    def call(self, mod, name, *a, **k):
        I = self.I_
        f = I.mod_attr(I.module(mod), name)
        return self.wrap(I.call(f, [self.unwrap(x) for x in a], {n: self.unwrap(x) for n, x in k.items()}))

    new = call

    def method(self, o, name, *a, **k):
        I = self.I_
        return self.wrap(I.call(I.getattr(o, name), [self.unwrap(x) for x in a],
                                {n: self.unwrap(x) for n, x in k.items()}))

    def attr(self, o, name):
        return self.wrap(self.I_.getattr(o, name))

    def raises(self, thunk, names=("Exception",)):
        I = self.I_
        old = self.r.raise_mode
        self.r.raise_mode = tuple(names)
        try:
            thunk()
        except RaiseEx as e:
            if any(IN.exc_matches(e.name, n) for n in names):
                return TRUE
            return FALSE
        finally:
            self.r.raise_mode = old
        return FALSE

    # ------------------------------------------------------ values
    def arr(self, a):
        if isinstance(a, Ref):
            return self.I_.get(a)
        if isinstance(a, (list, tuple)):
            from . import npmodel
            return npmodel.from_list(self.I_, [self.unwrap(x) for x in a])
        if isinstance(a, IN.Masked):
            raise Unsupported("masked result")
        raise Unsupported("not an array: %r" % (a,))

    def at(self, a, *ix):
        if isinstance(a, (Poly, Formula)) and not ix:
            return a
        if not isinstance(a, (Ref, list, tuple)):
            raise Unsupported("index into a %s" % type(a).__name__)
        x = self.arr(a)
        if len(ix) != x.ndim:
            raise Unsupported("rank of the result")
        return at(x, [P(i) for i in ix])

    def shape(self, a):
        if isinstance(a, (Poly, Formula)):
            return ()
        return tuple(self.arr(a).shape)

    def len(self, a):
        if isinstance(a, (list, tuple)):
            return len(a)
        return self.arr(a).shape[0]

    def ndim(self, a):
        if isinstance(a, (Poly, Formula)):
            return 0
        return self.arr(a).ndim

    def is_complex(self, a):
        return self.arr(a).k == "c"

    def num(self, x):
        return T.ite(x, 1, 0) if isinstance(x, Formula) else P(x)

    def eq(self, a, b, scale=0):
        if isinstance(a, (Formula, bool)) and isinstance(b, (Formula, bool)):
            return T.Iff(T.B(a), T.B(b))
        return T.eq(self.num(a), self.num(b))

    def ieq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return And(*[T.eq(P(x), P(y)) for x, y in zip(a, b)])
        return T.eq(self.num(a), self.num(b))

    def leq(self, a, b):
        return T.le(self.num(a), self.num(b))

    def and_(self, *a):
        return And(*[T.B(x) for x in a])

    def or_(self, *a):
        return Or(*[T.B(x) for x in a])

    def not_(self, a):
        return Not(T.B(a))

    def implies(self, a, b):
        a = T.B(a)
        if a is FALSE:
            return TRUE
        return T.Implies(a, T.B(b() if callable(b) else b))

    def ite(self, c, a, b):
        c = T.B(c)
        if c is TRUE:
            return a() if callable(a) else a
        if c is FALSE:
            return b() if callable(b) else b
        x = a() if callable(a) else a
        y = b() if callable(b) else b
        if isinstance(x, Formula) or isinstance(y, Formula):
            return T.fite(c, T.B(x), T.B(y))
        return T.ite(c, x, y)

    def sum(self, n, f):
        return T.bsum(P(n), lambda i: P(f(i)))

    def dft(self, n, f, k):
        return T.dft(P(n), lambda i: P(f(i)), P(k))

    def forall(self, ranges, f):
        vs, hyp, bound = [], [], []
        for r in ranges:
            lo, hi = (0, r) if not isinstance(r, tuple) else r
            if P(hi - lo).const() == 1:
                vs.append(P(lo))
                continue
            v = T.fresh("u")
            vs.append(v)
            bound.append(v)
            hyp += [T.ge(v, lo), T.lt(v, hi)]
        g = T.Implies(And(*hyp), T.B(f(*vs)))
        for v in reversed(bound):
            g = T.forall(v, g)
        return g

    def exists(self, n, f):
        lo, hi = (0, n) if not isinstance(n, tuple) else n
        v = T.fresh("u")
        return T.exists(v, And(T.ge(v, lo), T.lt(v, hi), T.B(f(v))))

    # ------------------------------------------------------ math
    def is_inf(self, z):
        """z is the infinite mark (everything else is finite under the real-number reading)"""
        from npv.npmodel import INF_ATOM
        z = P(z)
        if INF_ATOM not in z.fv:
            return FALSE
        a = T.the_atom(z)
        if a is INF_ATOM:
            return TRUE
        if a is not None and a.kind == "ite":
            c, x, y = a.args
            return Or(And(c, self.is_inf(x)), And(Not(c), self.is_inf(y)))
        raise Unsupported("infinite mark inside " + repr(z)[:80])

    def conj(self, z):
        return T.conj(P(z))

    def re(self, z):
        return T.re(P(z))

    def im(self, z):
        return T.im(P(z))

    def abs(self, z):
        return T.pabs(P(z))

    def abs2(self, z):
        z = P(z)
        return z * T.conj(z)

    def exp(self, x):
        return T.exp(P(x))

    def cis(self, t):
        return T.cis(P(t))

    def cos(self, x):
        return T.cos(P(x))

    def sin(self, x):
        return T.sin(P(x))

    def sqrt(self, x):
        return T.sqrt(P(x))

    def arccos(self, x):
        return npmodel().arccos_fn(P(x))

    def angle(self, z):
        """argument of z in turns, in (-1/2, 1/2]"""
        return T.fn("arg", (P(z),))

    def log(self, x):
        return T.log(P(x))

    def log2(self, x):
        return T.log(P(x)) / T.log(T.const(2))

    def floor(self, x):
        return T.floor(P(x))

    def ceil(self, x):
        return T.ceil(P(x))

    def round(self, x):
        return T.rnd(P(x))

    def trunc(self, x):
        return T.trunc(P(x))

    def min(self, *a):
        return T.pmin(*a)

    def max(self, *a):
        return T.pmax(*a)

    def pow(self, a, b):
        return T.ppow(P(a), b if isinstance(b, (int, Poly)) else P(b))

    def ipow(self, b, e):
        return T.ipow(b, e)

    def mod(self, a, b):
        return T.mod(P(a), P(b))

    def amax(self, n, f):
        v = T.fresh("b")
        return T.close_bind("amax", P(n), v, P(f(v)))

    def sorted(self, n, f, k):
        """k-th smallest of f(0), ..., f(n-1)"""
        v = T.fresh("b")
        return T.close_bind("sort", P(n), v, P(f(v)), (P(k),))

    def hamming(self, n, i):
        return T.fn("hamming", (P(n), P(i)))

    def hilb(self, n, f, k):
        v = T.fresh("b")
        return T.close_bind("hilb", P(n), v, P(f(v)), (P(k),))

    # ------------------------------------------------------ obligations
    def ensure(self, name, c):
        self.n_ensure += 1
        if self.r.frame:
            return
        self.r.obligation(name, T.B(c), self.I_.pc, "ensures", None)

    def unchanged(self, *names, final=False):
        if self.r.frame and not final:
            return
        for n in names:
            bad = self.I_.written.get(n)
            self.r.obligation("input %s is not modified" % n, TRUE if bad is None else FALSE, self.I_.pc,
                              bad or "frame", None)

    def copy(self, a):
        if isinstance(a, Ref):
            return self.I_.mk(self.I_.get(a))
        return a

    def same(self, name, a, b):
        if self.r.frame:
            return
        self.r.obligation(name, self._same(a, b), self.I_.pc, "ensures", None)

    def _same(self, a, b):
        if isinstance(a, (tuple, list)):
            if not isinstance(b, (tuple, list)) or len(a) != len(b):
                return FALSE
            return And(*[self._same(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref):
            x, y = self.arr(a), self.arr(b)
            if x.ndim != y.ndim:
                return FALSE
            fs = [T.eq(p, q) for p, q in zip(x.shape, y.shape)]
            if x.k == "b" and y.k == "b":
                g = self.forall(list(x.shape), lambda *i: T.Iff(at(x, i), at(y, i)))
            else:
                g = self.forall(list(x.shape), lambda *i: T.eq(as_num(at(x, i), x.k), as_num(at(y, i), y.k)))
            return And(*fs, g)
        return self.eq(a, b)


class Runner:
    def __init__(self, repo, budget=60.0, total=400.0, verbose=False, summaries=None):
        self.repo, self.budget, self.verbose = repo, budget, verbose
        self.total = total
        self.obls = []
        self.paths = 0
        self.infeasible = 0
        self.raise_mode = ()
        self.frame = False
        self.unsup = []
        self.unsup_abs = []
        self.choices = {}
        self.vac = []
        self.memo = {}
        self.summaries = summaries or {}

    def on_oblige(self, f, pc, what, where, exc):
        if exc is not None and any(IN.exc_matches(exc, n) for n in self.raise_mode):
            I = self.I
            if not I.branch(f):
                raise RaiseEx(exc, where)
            return
        if self.frame:
            return
        if self.assume_div and what == "divisor is non-zero":
            r = PR.prove(f, pc, 5.0)
            if r.status != "proved":
                npmodel().USED.add("assumed at %s: %s" % (where.split(":")[0], self.assume_div))
                return
        self.obligation(what, f, pc, where, exc)

    def obligation(self, name, f, pc, where, exc):
        key = (f.id, tuple(sorted(set(g.id for g in pc))))
        t0 = time.time()
        if key in self.memo:
            r = self.memo[key]
        else:
            left = self.t_end - time.time()
            if left <= 0:
                r = PR.Res("unknown", None, "time budget exhausted")
            else:
                r = PR.prove(f, pc, min(self.budget, max(1.0, left)))
            self.memo[key] = r
        st = r.status
        model = None
        why = r.why
        if st != "proved":
            # a value the loop rules had to forget: the obligation is undecided, not failed
            txt = T.show_f(f)
            if "X!!" in txt or "S!!" in txt:
                why = "abstracted value in the goal: %s" % (r.why,)
        if st == "refuted" and r.model is not None:
            model = self.extract(r.model)
        if self.verbose:
            print("   [%s] %s (%s) %.2fs %s" % (st, name, where, time.time() - t0, r.why if st != "proved" else ""))
            if st != "proved":
                print("       goal", T.show_f(f)[:6000])
                print("       pc  ", " & ".join(T.show_f(g)[:200] for g in pc)[:1500])
                if model:
                    print("       model", model)
        self.obls.append(Obl(name, where, st, why, model, time.time() - t0, self.paths))

    def extract(self, m):
        model, ctx = m
        out = {}
        for n, v in self.B.inputs.items():
            x = smt.model_value(model, ctx, v)
            if x is not None:
                out[n] = x
        return out

    def run(self, contract):
        self.t_end = time.time() + self.total
        self.frame = contract.frame
        I = Interp(self.repo, self.on_oblige)
        I.summaries = {q: self.summaries[q] for q in contract.uses}
        self.I = I
        pending = [[]]
        n_ensure = 0
        while pending:
            if time.time() > self.t_end:
                self.unsup.append("time budget exhausted with paths left")
                break
            if self.paths > 300:
                self.unsup.append("too many paths")
                break
            ch = pending.pop()
            I.reset()
            T._counter_fresh_reset() if hasattr(T, "_counter_fresh_reset") else None
            self.raise_mode = ()
            self.assume_div = None
            self.choices = {}
            I.traces.append(Trace(ch, pending))
            self.B = I.B = Sym(self, I)
            self.paths += 1
            done = False
            try:
                contract.fn(self.B)
                done = True
            except Infeasible:
                self.infeasible += 1
            except RaiseEx as e:
                if self.frame:
                    done = True
                else:
                    self.obligation("no %s raised (%s)" % (e.name, e.args[0] if e.args else ""), FALSE, I.pc,
                                    e.where or I.where, e.name)
            except Unsupported as e:
                if smt.consistent(I.pc):
                    self.unsup.append("%s (%s)" % (e, I.where))
                    if self.verbose:
                        import traceback
                        traceback.print_exc()
                else:
                    self.infeasible += 1
            except T.TermBlowup as e:
                self.unsup.append("term blow-up (%s)" % I.where)
            except RecursionError:
                self.unsup.append("recursion (%s)" % I.where)
            if done and self.frame:
                self.B.unchanged(*sorted(set(I.inputs.values())), final=True)
                # a write to a module or class is outside the supported subset (interp.not_module_state)
                self.obligation("no state outlives the call", TRUE, I.pc, "frame", None)
            if done:
                n_ensure += self.B.n_ensure
                if smt.consistent(I.pc):
                    self.vac.append(True)
            self.unsup_abs = self.unsup_abs + list(I.abstracted)
        self.reachable = len(self.vac)
        return self
