"""SMT back end: translation of terms to z3 (deciding) with cvc5 as a second
opinion on request.  Integers are mathematical, reals are mathematical.
Transcendental functions and binders are uninterpreted with sound axioms."""
import time
from fractions import Fraction
import math
import z3
from . import terms as T
from .terms import Poly, Formula, P, TRUE, FALSE

STATS = {"queries": 0, "time": 0.0, "cache": 0}
ELEM_INV = {}      # array name -> fn(idx tuple, value Poly) -> Formula
FN_AX = {}         # fn name -> fn(args, value Poly) -> Formula
BIND_AX = []       # fn(atom, value Poly) -> Formula or None
FACTS = {}         # atom id -> [Formula]   (facts about fresh symbols)
TIMEOUT1 = 2500
TIMEOUT2 = 6000
_cache = {}
_models = {}


def reset():
    _cache.clear()
    _models.clear()


class NotReal(Exception):
    pass


class Ctx:
    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.consts = {}
        self.ax = []
        self.floors, self.rmods, self.paired = [], [], set()
        self.pending = []
        self.seen = set()
        self.fdone = {}
        self.nonlin_used = False
        self.nex = 0
        self.elems = {}

    # ---- polys
    def z(self, p):
        p = P(p)
        if not p.is_real:
            if (T.conj(p) - p).t:
                raise NotReal()
            return self.zc(p)[0]
        isint = p.is_int
        acc = []
        for m, c in p.t.items():
            acc.append(self.mono(m, c, isint))
        if not acc:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return acc[0] if len(acc) == 1 else z3.Sum(acc)

    def num(self, c, isint):
        if isint:
            return z3.IntVal(int(c))
        c = Fraction(c)
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def mono(self, m, c, isint):
        if not m:
            return self.num(c, isint)
        tot = sum(abs(e) for _, e in m)
        if tot > 1 and not self.nl:
            key = ("mono", m)
            v = self.consts.get(key)
            if v is None:
                ints = all(a.sort == "int" and e > 0 for a, e in m)
                v = (z3.Int if ints else z3.Real)("m%d" % len(self.consts))
                self.consts[key] = v
                self.mono_axioms(m, v)
            if not isint and v.sort() == z3.IntSort():
                v = z3.ToReal(v)
            return v if c == 1 else self.num(c, isint) * v
        if tot > 1:
            self.nonlin_used = True
        r = None
        for a, e in m:
            x = self.atom(a) if e > 0 else self.rec(a)
            if not isint and x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            for _ in range(abs(e)):
                r = x if r is None else r * x
        return r if c == 1 else self.num(c, isint) * r

    def mono_axioms(self, m, v):
        """Sign facts for an opaque product."""
        lits = []
        for a, e in m:
            if e % 2 == 0:
                x = self.atom(a)
                lits.append((None, x))
            else:
                lits.append((e, self.atom(a)))
        odd = [x for e, x in lits if e is not None]
        zero = z3.Or(*[x == 0 for _, x in lits])
        neg = None
        for x in odd:
            n = x < 0
            neg = n if neg is None else z3.Xor(neg, n)
        if all(e > 0 for _, e in m):
            self.ax.append(z3.Implies(zero, v == 0))
        nz = z3.Not(zero)
        if neg is None:
            self.ax.append(z3.Implies(nz, v > 0))
        else:
            self.ax.append(z3.Implies(z3.And(nz, neg), v < 0))
            self.ax.append(z3.Implies(z3.And(nz, z3.Not(neg)), v > 0))
        if len(m) == 2 and all(e == 1 and a.sort == "int" for a, e in m):
            # |a*b| >= |a| for integers b != 0
            x, y = [self.atom(a) for a, _ in m]
            self.ax.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(v >= x, v >= y)))
            self.ax.append(z3.Implies(z3.And(x == 1), v == y))
            self.ax.append(z3.Implies(z3.And(y == 1), v == x))

    def rec(self, a):
        key = ("rec", a.id)
        v = self.consts.get(key)
        if v is None:
            v = z3.Real("rec%d" % len(self.consts))
            self.consts[key] = v
            x = self.atom(a)
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            self.recip_axioms(x, v)
        return v

    def recip_axioms(self, x, v):
        if self.nl:
            self.ax.append(z3.Implies(x != 0, v * x == 1))
        self.ax.append(z3.Implies(x > 0, v > 0))
        self.ax.append(z3.Implies(x < 0, v < 0))
        self.ax.append(z3.Implies(x >= 1, v <= 1))

    def const(self, a, sort):
        key = a.id
        v = self.consts.get(key)
        if v is None:
            nm = a.args[0] if a.kind == "var" else "%s_%d" % (a.kind.replace(":", "_"), a.id)
            v = z3.Int(nm) if sort == "int" else z3.Real(nm)
            self.consts[key] = v
        return v

    def atom(self, a):
        if not a.real:
            raise NotReal()
        v = self.consts.get(a.id)
        if v is not None:
            return v
        k = a.kind
        if k == "ite":
            c = self.f(a.args[0])
            x, y = self.z(a.args[1]), self.z(a.args[2])
            if x.sort() != y.sort():
                x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            v = z3.If(c, x, y)
            self.consts[a.id] = v
            return v
        if k == "elem":
            arr, idx, _ = a.args
            f = self.fun(arr, len(idx), a.sort)
            v = f(*[self.zi(i) for i in idx])
            self.consts[a.id] = v
            inv = ELEM_INV.get(arr)
            if inv is not None and self.nex < 400:
                self.nex += 1
                self.pending.append(inv(idx, a.poly))
            self.elems.setdefault(arr, []).append(idx)
            return v
        v = self.const(a, a.sort)
        self.axioms(a, v)
        for f in FACTS.get(a.id, ()):
            self.pending.append(f)
        return v

    def zi(self, p):
        x = self.z(p)
        return x if x.sort() == z3.IntSort() else z3.ToInt(x)

    def fun(self, name, ar, sort):
        key = ("fun", name, ar, sort)
        f = self.consts.get(key)
        if f is None:
            rs = z3.IntSort() if sort == "int" else z3.RealSort()
            f = z3.Function(str(name), *([z3.IntSort()] * ar + [rs]))
            self.consts[key] = f
        return f

    def axioms(self, a, v):
        k = a.kind
        ax = self.ax.append
        if k == "var":
            return
        if k == "pi":
            ax(v > z3.RealVal("3.14159265"))
            ax(v < z3.RealVal("3.14159266"))
        elif k == "floor":
            D = 1
            for c in a.args[0].t.values():
                dn = getattr(c, "denominator", None)
                if dn is None:
                    D = 0
                    break
                D = D * dn // math.gcd(D, dn)
            if 1 < D <= 64 and (a.args[0] * D).is_int:
                x = self.z(a.args[0] * D)
                if x.sort() == z3.IntSort():
                    ax(v == x / D)
                    return
            p = self.zr(a.args[0])
            for o, w in self.floors:
                if not (o.args[0] + a.args[0]).t:
                    ax(z3.Or(v == -w, v == -w - 1))
            self.floors.append((a, v))
            self.pair_floor_mod()
            ax(z3.ToReal(v) <= p)
            ax(p < z3.ToReal(v) + 1)
        elif k == "round":
            p = self.zr(a.args[0])
            ax(z3.ToReal(v) <= p + z3.RealVal("1/2"))
            ax(p - z3.RealVal("1/2") <= z3.ToReal(v))
            # half to even
            h = z3.ToReal(v) - p
            ax(z3.Implies(z3.Or(h == z3.RealVal("1/2"), h == z3.RealVal("-1/2")), v % 2 == 0))
        elif k == "mod":
            n, d = a.args
            cd = d.const()
            if a.sort == "int":
                x, b = self.z(n), self.z(d)
                if cd is not None and cd > 0:
                    ax(v == x % int(cd))
                else:
                    self.modax(x, b, v, None)
            else:
                x, b = self.zr(n), self.zr(d)
                self.modax(x, b, v, a)
                if cd is not None and cd > 0 and int(cd) == cd:
                    self.rmods.append((a, v, int(cd)))
                    self.pair_floor_mod()
        elif k == "fdiv":
            n, d = a.args
            x, b = self.zr(n), self.zr(d)
            w = z3.ToReal(v)
            ax(z3.Implies(z3.And(b > 0, 0 <= x, x < b), w == 0))
            ax(z3.Implies(z3.And(b > 0, b <= x, x < 2 * b), w == 1))
            ax(z3.Implies(z3.And(b > 0, -b <= x, x < 0), w == -1))
            ax(z3.Implies(z3.And(b > 0, 0 <= x), w >= 0))
            ax(z3.Implies(z3.And(b > 0, 0 > x), w < 0))
            ax(z3.Implies(z3.And(b >= 1, 0 <= x), w <= x))
            if self.nl:
                ax(z3.Implies(b > 0, z3.And(w * b <= x, x < w * b + b)))
                self.nonlin_used = True
        elif k == "abs":
            p = a.args[0]
            ax(v >= 0)
            if p.is_real:
                x = self.z(p)
                ax(v == z3.If(x >= 0, x, -x))
            else:
                r, i = self.zc(p)
                if self.nl:
                    ax(v * v == r * r + i * i)
                ax(z3.Implies(v == 0, z3.And(r == 0, i == 0)))
                ax(z3.Implies(z3.And(r == 0, i == 0), v == 0))
                ax(r <= v)
                ax(-r <= v)
                ax(i <= v)
                ax(-i <= v)
        elif k == "sqrt":
            x = self.zr(a.args[0])
            ax(v >= 0)
            ax(z3.Implies(x > 0, v > 0))
            ax(z3.Implies(x == 0, v == 0))
            ax(z3.Implies(x >= 1, z3.And(v >= 1, v <= x)))
            ax(z3.Implies(z3.And(x >= 0, x <= 1), z3.And(v >= x, v <= 1)))
            if self.nl:
                ax(z3.Implies(x >= 0, v * v == x))
        elif k == "exp":
            x = self.zr(a.args[0])
            ax(v > 0)
            ax(z3.Implies(x > 0, v > 1))
            ax(z3.Implies(x < 0, v < 1))
            ax(z3.Implies(x == 0, v == 1))
            ax(v >= x + 1)
        elif k == "log":
            x = self.zr(a.args[0])
            ax(z3.Implies(x > 1, v > 0))
            ax(z3.Implies(x == 1, v == 0))
            ax(z3.Implies(z3.And(x > 0, x < 1), v < 0))
            ax(z3.Implies(x > 0, v <= x - 1))
            for o in self.logs():
                if o is not a:
                    y = self.zr(o.args[0])
                    w = self.const(o, "real")
                    ax(z3.Implies(z3.And(x > 0, x < y), v < w))
                    ax(z3.Implies(z3.And(y > 0, y < x), w < v))
                    ax(z3.Implies(x == y, v == w))
            self.loglist.append(a)
        elif k == "pow":
            b, e = self.zr(a.args[0]), self.zr(a.args[1])
            ax(z3.Implies(b > 0, v > 0))
            ax(z3.Implies(e == 0, v == 1))
            ax(z3.Implies(e == 1, v == b))
            ax(z3.Implies(b == 1, v == 1))
            ax(z3.Implies(z3.And(b > 1, e > 0), v > 1))
            ax(z3.Implies(z3.And(b > 1, e < 0), v < 1))
            ax(z3.Implies(z3.And(b == 0, e > 0), v == 0))
            ax(z3.Implies(b >= 0, v >= 0))
            bc = a.args[0].const()
            if bc is not None and bc > 1 and int(bc) == bc:
                for c in range(1, 7):
                    ax(z3.Implies(e >= c, v >= int(bc) ** c))
                    ax(z3.Implies(e <= c, v <= int(bc) ** c))
            if bc is not None and bc > 1:
                lb = T.log(a.args[0])
                for o in T.sub_atoms(a.args[1]):
                    if o.kind == "log" and o.poly is not lb:
                        L, x, w = o.poly / lb, o.args[0], a.poly
                        self.pending.append(T.Or(T.lt(a.args[1], L), T.ge(w, x)))
                        self.pending.append(T.Or(T.gt(a.args[1], L), T.le(w, x)))
                        self.pending.append(T.Or(T.ge(a.args[1], L), T.lt(w, x)))
                        self.pending.append(T.Or(T.le(a.args[1], L), T.gt(w, x)))
        elif k == "inv":
            self.recip_axioms(self.zr(a.args[0]), v)
        elif k.startswith("fn:"):
            f = FN_AX.get(k[3:])
            if f is not None:
                self.pending.append(f(a.args, a.poly))
        elif k == "bind":
            if a.args[0] in ("amax", "amin"):
                # attained at some index, and a bound at every index
                import npv.terms as TT
                op, n, w, body = a.args[:4]
                j = TT.var("arg!%d" % a.id, "int")
                at_j = TT.subst(body, {TT.the_atom(w): j})
                self.pending.append(TT.Or(TT.lt(n, 1), TT.And(TT.ge(j, 0), TT.lt(j, n), TT.eq(a.poly, at_j))))
            for g in BIND_AX:
                f = g(a, a.poly)
                if f is not None:
                    self.pending.append(f)

    def pair_floor_mod(self):
        """an integral x has x mod b = floor(x) mod b"""
        for a, v, b in self.rmods:
            for o, w in self.floors:
                if o.args[0] is a.args[0] and (a.id, o.id) not in self.paired:
                    self.paired.add((a.id, o.id))
                    self.ax.append(z3.Or(self.zr(o.args[0]) != z3.ToReal(w), v == z3.ToReal(w % b)))

    loglist = None

    def logs(self):
        if self.loglist is None:
            self.loglist = []
        return list(self.loglist)

    def modax(self, x, b, v, real):
        ax = self.ax.append
        ax(z3.Implies(b > 0, z3.And(v >= 0, v < b)))
        ax(z3.Implies(z3.And(b > 0, 0 <= x, x < b), v == x))
        ax(z3.Implies(z3.And(b > 0, b <= x, x < 2 * b), v == x - b))
        ax(z3.Implies(z3.And(b > 0, 2 * b <= x, x < 3 * b), v == x - 2 * b))
        ax(z3.Implies(z3.And(b > 0, -b <= x, x < 0), v == x + b))
        ax(z3.Implies(z3.And(b > 0, -2 * b <= x, x < -b), v == x + 2 * b))
        if self.nl:
            q = z3.Int("q%d" % len(self.consts))
            self.consts[("q", len(self.consts))] = q
            if real is not None:
                ax(z3.Implies(b > 0, x == z3.ToReal(q) * b + v))
            else:
                ax(z3.Implies(b > 0, x == q * b + v))
            self.nonlin_used = True

    def zr(self, p):
        x = self.z(p)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    # ---- complex
    def zc(self, p):
        p = P(p)
        if p.is_real:
            return self.zr(p), z3.RealVal(0)
        rs, is_ = [], []
        opaque = not self.nl or len(p.t) > 10
        for m, c in p.t.items():
            if opaque and sum(abs(e) for a, e in m if a.kind != "I") > 1:
                r, i = self.cmono(m, c)
                rs.append(r)
                is_.append(i)
                continue
            r, i = self.num(c, False), z3.RealVal(0)
            rm = tuple(x for x in m if x[0].real)
            if rm:
                r = self.mono(rm, c, False)
            for a, e in m:
                if a.real:
                    continue
                ar, ai = self.catom(a)
                if e < 0:
                    nrm = self.recconst(a, ar, ai)
                    ar, ai = ar * nrm, -ai * nrm
                for _ in range(abs(e)):
                    r, i = r * ar - i * ai, r * ai + i * ar
            rs.append(r)
            is_.append(i)
        return z3.simplify(z3.Sum(rs)), z3.simplify(z3.Sum(is_))

    def cmono(self, m, c):
        """a complex product as an opaque number; a conjugate pair shares its parts"""
        k = sum(e for a, e in m if a.kind == "I") % 4
        q = Poly.make({tuple(x for x in m if x[0].kind != "I"): Fraction(1)})
        qc = T.conj(q)
        v = self.consts.get(("cm", q))
        if v is None:
            v = z3.Real("cmr%d" % len(self.consts)), z3.Real("cmi%d" % len(self.consts))
            self.consts[("cm", q)] = v
            if qc is q:
                v = self.consts[("cm", q)] = v[0], z3.RealVal(0)
            else:
                self.consts[("cm", qc)] = v[0], -v[1]
        re, im = v
        for _ in range(k):
            re, im = -im, re
        c = self.num(c, False)
        return c * re, c * im

    def recconst(self, a, ar, ai):
        v = z3.Real("crec%d" % a.id)
        if self.nl:
            self.ax.append(z3.Implies(z3.Or(ar != 0, ai != 0), v * (ar * ar + ai * ai) == 1))
        self.ax.append(z3.Implies(z3.Or(ar != 0, ai != 0), v > 0))
        return v

    def catom(self, a):
        k = a.kind
        if k == "I":
            return z3.RealVal(0), z3.RealVal(1)
        key = ("c", a.id)
        v = self.consts.get(key)
        if v is not None:
            return v
        if k == "ite":
            c = self.f(a.args[0])
            x, y = self.zc(a.args[1]), self.zc(a.args[2])
            v = z3.If(c, x[0], y[0]), z3.If(c, x[1], y[1])
        elif k == "elem":
            arr, idx, cj = a.args
            fr, fi = self.fun(str(arr) + ".re", len(idx), "real"), self.fun(str(arr) + ".im", len(idx), "real")
            ii = [self.zi(i) for i in idx]
            v = fr(*ii), (-fi(*ii) if cj else fi(*ii))
        elif k == "cis":
            cj = T.the_atom(T.conj(a.poly))
            if cj is not None and cj.id < a.id and cj.kind == "cis":
                c, s = self.catom(cj)
                v = c, -s
            else:
                c, s = z3.Real("cos%d" % a.id), z3.Real("sin%d" % a.id)
                if self.nl:
                    self.ax.append(c * c + s * s == 1)
                self.ax += [c <= 1, c >= -1, s <= 1, s >= -1]
                v = c, s
        elif k == "inv":
            r, i = self.zc(a.args[0])
            n = self.recconst(a, r, i)
            v = r * n, -i * n
        else:
            base = a
            sign = 1
            if k == "bind" and a.args[5]:
                base = T.atom("bind", a.args[:5] + (False,), a.sort, a.real)
                sign = -1
            elif k == "conj":
                base = T.the_atom(a.args[0]) or a
                sign = -1 if base is not a else 1
            kk = ("c0", base.id)
            w = self.consts.get(kk)
            if w is None:
                w = z3.Real("re%d" % base.id), z3.Real("im%d" % base.id)
                self.consts[kk] = w
            v = (w[0], w[1]) if sign == 1 else (w[0], -w[1])
        self.consts[key] = v
        return v

    # ---- formulas
    def f(self, x):
        r = self.fdone.get(x.id)
        if r is not None:
            return r
        o = x.op
        if o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o in ("le", "lt"):
            p = x.args[0]
            if not p.is_real:
                a, b = self.zc(p)
                r = (a <= 0) if o == "le" else (a < 0)
            else:
                a = self.z(p)
                r = (a <= 0) if o == "le" else (a < 0)
        elif o == "eq":
            p = x.args[0]
            if p.is_real:
                r = self.z(p) == 0
            else:
                a, b = self.zc(p)
                r = z3.And(a == 0, b == 0)
        elif o == "not":
            r = z3.Not(self.f(x.args[0]))
        elif o == "and":
            r = z3.And(*[self.f(y) for y in x.args])
        elif o == "or":
            r = z3.Or(*[self.f(y) for y in x.args])
        elif o == "belem":
            arr, idx = x.args
            g = self.consts.get(("bfun", arr))
            if g is None:
                g = z3.Function(str(arr), *([z3.IntSort()] * len(idx) + [z3.BoolSort()]))
                self.consts[("bfun", arr)] = g
            r = g(*[self.zi(i) for i in idx])
        else:
            r = z3.Bool("f%d" % x.id)
        self.fdone[x.id] = r
        return r

    def drain(self):
        rounds = 0
        while self.pending and rounds < 6:
            rounds += 1
            todo, self.pending = self.pending, []
            for f in todo:
                if f is TRUE or f.id in self.seen:
                    continue
                self.seen.add(f.id)
                try:
                    self.ax.append(self.f(f))
                except NotReal:
                    pass
        self.pending = []


def linear_in(p, va):
    """(coef, rest) if p = coef*v + rest with an integer constant coef, rest free of v."""
    coef = 0
    rest = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0] == (va, 1):
            coef = c
        elif any(va in a.fv for a, _ in m):
            return None
        else:
            rest[m] = c
    return coef, Poly.make(rest)


def is_bound(x):
    return any(a.kind == "var" and a.args[0].startswith("@") for a in x.fv)


def collect_elems(x, out, seen):
    for a in T.sub_atoms(x):
        if a.kind == "elem" and a.id not in seen:
            seen.add(a.id)
            out.setdefault(a.args[0], []).append(a.args[1])
        elif a.kind == "mod" and a.id not in seen and isinstance(a.args[1], Poly) and a.args[1].is_int and \
                a.args[1].const() is None:
            seen.add(a.id)
            out.setdefault(("mod", a.args[0].id), []).append((a.args[1],))
    # belems
    st = [x]
    s2 = set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, Formula):
            if y.id in s2:
                continue
            s2.add(y.id)
            if y.op == "belem":
                out.setdefault(y.args[0], []).append(y.args[1])
            if y.op != "forall":
                st.extend(z for z in y.args if isinstance(z, (Formula, tuple)))
    return out


def instantiate(foralls, ground, extra_terms):
    """Instances of universally quantified hypotheses."""
    elems = {}
    seen = set()
    for g in ground:
        collect_elems(g, elems, seen)
    out = []
    for fa in foralls:
        v, body = fa.args
        va = T.the_atom(v)
        cands = {}
        pat = {}
        collect_elems(body, pat, set())
        for arr, idxs in pat.items():
            for idx in idxs:
                for pos, ip in enumerate(idx):
                    li = linear_in(ip, va)
                    if li is None or li[0] not in (1, -1):
                        continue
                    for gi in [g for g in elems.get(arr, ()) if not is_bound(g[pos])][:12]:
                        t = (gi[pos] - li[1]) * li[0]
                        cands[t.id] = t
        for t in guard_ends(body, va):
            cands[t.id] = t
        for t in extra_terms:
            if len(cands) < 40:
                cands[t.id] = t
        for t in list(cands.values())[:40]:
            if not t.is_int:
                continue
            inst = T.subst(body, {va: t})
            if inst.op == "or":                  # (forall k. A) or B  =  forall k. (A or B)
                fa2 = [g for g in inst.args if isinstance(g, Formula) and g.op == "forall"]
                if len(fa2) == 1:
                    rest = [g for g in inst.args if g is not fa2[0]]
                    out += [T.Or(g, *rest) for g in instantiate([fa2[0]], ground, extra_terms)]
                    continue
            if inst.op == "forall":
                out += instantiate([inst], ground, extra_terms)
            else:
                out.append(inst)
    return out


def guard_ends(body, va):
    """Least/greatest values allowed by the integer guards of  guard -> claim."""
    out = []
    for g in (body.args if body.op == "or" else ()):
        if isinstance(g, Formula) and g.op == "le" and g.args[0].is_int:
            li = linear_in(g.args[0], va)
            if li is not None and li[0] in (1, -1):
                out.append((1 - li[1]) * li[0])
    return out


def int_terms(ground):
    out = {}
    for g in ground:
        for a in T.sub_atoms(g):
            if a.kind == "var" and a.sort == "int":
                out[a.poly.id] = a.poly
            elif a.kind == "elem":
                for i in a.args[1]:
                    if i.is_int:
                        out[i.id] = i
    return list(out.values())[:30]


def prepare(fs):
    ground, foralls = [], []

    def add(f):
        if f.op == "and":
            for g in f.args:
                add(g)
        elif f.op == "forall":
            foralls.append(f)
        elif f is not TRUE:
            ground.append(f)
    for f in fs:
        add(f)
    return ground, foralls


def extremes(ground, known):
    """a minimum (maximum) is a bound at every index"""
    out = []
    for g in ground:
        for a in T.sub_atoms(g):
            if a.kind == "bind" and a.args[0] in ("amin", "amax") and a.id not in known:
                known.add(a.id)
                op, n, w, body = a.args[:4]
                v = T.fresh("e")
                b = T.subst(body, {T.the_atom(w): v})
                out.append(T.forall(v, T.Or(T.lt(v, 0), T.ge(v, n), T.le(a.poly, b) if op == "amin" else T.ge(a.poly, b))))
    return out


def check(fs, nonlinear, timeout, want_model=False):
    """sat / unsat / unknown of a conjunction."""
    ctx = Ctx(nonlinear)
    s = z3.Solver()
    s.set("timeout", timeout)
    ground, foralls = prepare(fs)
    for g in ground:
        if g is FALSE:
            return "unsat", None, ctx
    known = set()
    for _ in range(2):
        foralls += extremes(ground, known)
        if not foralls:
            break
        inst = instantiate(foralls, ground, int_terms(ground))
        g2, foralls = prepare(inst)
        ground = ground + g2
        foralls = []
    for g in ground:
        try:
            s.add(ctx.f(g))
        except NotReal:
            pass
    ctx.drain()
    for a in ctx.ax:
        s.add(a)
    r = s.check()
    m = None
    if r == z3.sat and want_model:
        m = (s.model(), ctx)
    return str(r), m, ctx


def literal(f, ids, depth):
    """truth of f given that the formulas ids hold, by propositional reasoning only (None: undetermined)"""
    if f.id in ids or f is TRUE:
        return True
    if f is FALSE or T.Not(f).id in ids:
        return False
    if depth == 0:
        return None
    if f.op == "not":
        r = literal(f.args[0], ids, depth - 1)
        return None if r is None else not r
    if f.op in ("and", "or"):
        rs = [literal(g, ids, depth - 1) for g in f.args]
        stop = f.op == "or"
        if any(r is stop for r in rs):
            return stop
        return None if any(r is None for r in rs) else not stop
    return None


def entails(pc, goal, want_model=False):
    """True: pc => goal proved; False: a counter-model exists (of the
    abstraction); None: unknown."""
    if goal is TRUE:
        return True
    key = (frozenset(f.id for f in pc), goal.id)
    if key in _cache and not (want_model and _cache[key] is False):
        STATS["cache"] += 1
        return _cache[key]
    for f in pc:
        if f is goal or f is FALSE:
            _cache[key] = True
            return True
    if goal.op in ("and", "or", "not") and literal(goal, {f.id for f in pc}, 4) is True:
        _cache[key] = True
        return True
    t0 = time.time()
    STATS["queries"] += 1
    fs = list(pc) + [T.Not(goal)]
    r, m, ctx = check(fs, False, TIMEOUT1, want_model)
    if r == "unsat":
        res = True
    else:
        hasnl = any(isinstance(k, tuple) and k and k[0] in ("mono",) for k in ctx.consts) \
            or has_nl(fs)
        if hasnl:
            r, m, ctx = check(fs, True, TIMEOUT2, want_model)
        res = True if r == "unsat" else (False if r == "sat" else None)
    STATS["time"] += time.time() - t0
    _cache[key] = res
    if want_model and m is not None:
        _models[key] = m
        entails.last_model = m
    return res


entails.last_model = None


def has_nl(fs):
    for f in fs:
        for a in T.sub_atoms(f):
            if a.kind in ("mod", "fdiv", "abs", "sqrt", "inv", "cis"):
                return True
            if a.kind == "bind":
                continue
        st = [f]
        while st:
            y = st.pop()
            if isinstance(y, Formula) and y.op in ("le", "lt", "eq"):
                if any(sum(abs(e) for _, e in m) > 1 for m in y.args[0].t):
                    return True
            elif isinstance(y, Formula):
                st.extend(z for z in y.args if isinstance(z, Formula))
    return False


def consistent(pc):
    """Is the path condition satisfiable (as far as the solver can tell)?"""
    return entails(pc, FALSE) is not True


def model_value(model, ctx, p):
    """Integer/rational value of a poly in the last model, or None."""
    try:
        v = model.eval(ctx.z(P(p)), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(10)
            return float(a.numerator_as_long()) / float(a.denominator_as_long())
    except Exception:
        pass
    return None
