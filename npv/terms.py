"""Term language of the verifier.

Scalars are polynomials with rational coefficients over hash-consed atoms.
The imaginary unit is the atom I (I*I = -1); complex conjugation is an
operation on polynomials, so complex identities are decided by normalisation.
Mathematical integers / reals / complex numbers throughout (no rounding).
"""
from fractions import Fraction

_atoms = {}
_polys = {}
_forms = {}
_counter = [0]
_fresh = [0]


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "real", "fv", "depth", "poly")

    def __repr__(self):
        return show_atom(self)


def _fvdepth(args):
    fv = frozenset()
    d = 0
    for a in args:
        if isinstance(a, (Poly, Formula)):
            fv |= a.fv
            d = max(d, a.depth)
        elif isinstance(a, tuple):
            f2, d2 = _fvdepth(a)
            fv |= f2
            d = max(d, d2)
    return fv, d


def atom(kind, args, sort="real", real=True):
    key = (kind, args, sort, real)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        _counter[0] += 1
        a.id = _counter[0]
        a.kind, a.args, a.sort, a.real = kind, args, sort, real
        a.fv, a.depth = _fvdepth(args)
        if kind == "var":
            a.fv = frozenset([a])
        _atoms[key] = a
        a.poly = None
        a.poly = Poly.make({((a, 1),): 1})
    return a


class Poly:
    __slots__ = ("t", "id", "fv", "depth", "_real", "_int", "_conj")

    @staticmethod
    def make(d):
        key = frozenset(d.items())
        p = _polys.get(key)
        if p is None:
            p = Poly.__new__(Poly)
            p.t = d
            _counter[0] += 1
            p.id = _counter[0]
            fv = frozenset()
            dep = 0
            for m in d:
                for a, _ in m:
                    fv |= a.fv
                    if a.depth > dep:
                        dep = a.depth
            p.fv, p.depth = fv, dep
            p._real = p._int = p._conj = None
            _polys[key] = p
        return p

    # -- predicates
    @property
    def is_real(self):
        if self._real is None:
            self._real = all(a.real for m in self.t for a, _ in m)
        return self._real

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(
                (isinstance(c, int) or c.denominator == 1)
                and all(a.sort == "int" and e > 0 for a, e in m)
                for m, c in self.t.items())
        return self._int

    def const(self):
        """Rational value if constant (real) else None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = _nc(v)
        return Poly.make(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly.make({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        c = o.const()
        if c is not None:
            return self if c == 1 else Poly.make({m: _nc(k * c) for m, k in self.t.items()})
        c = self.const()
        if c is not None:
            return o if c == 1 else Poly.make({m: _nc(k * c) for m, k in o.t.items()})
        key = (self.id, o.id) if self.id <= o.id else (o.id, self.id)
        r = _mulcache.get(key)
        if r is not None:
            return r
        if len(self.t) * len(o.t) > LIMIT_TERMS:
            raise TermBlowup("polynomial too large")
        d = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if isinstance(r, Poly):
                    extra.append(r * P(c1 * c2))
                else:
                    s, m = r
                    v = d.get(m, 0) + c1 * c2 * s
                    if v == 0:
                        d.pop(m, None)
                    else:
                        d[m] = _nc(v)
        r = Poly.make(d)
        for e in extra:
            r = r + e
        _mulcache[key] = r
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, e):
        return ppow(self, e)

    def __floordiv__(self, o):
        return fdiv(self, P(o))

    def __rfloordiv__(self, o):
        return fdiv(P(o), self)

    def __mod__(self, o):
        return mod(self, P(o))

    def __rmod__(self, o):
        return mod(P(o), self)

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __ge__(self, o):
        return ge(self, o)

    def __gt__(self, o):
        return gt(self, o)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")

    def __repr__(self):
        return show(self)


_mulcache = {}
LIMIT_TERMS = 40000


class TermBlowup(Exception):
    pass


def _nc(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return v


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return x.poly
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(frac_of_float(x))
    if isinstance(x, complex):
        return const(frac_of_float(x.real)) + const(frac_of_float(x.imag)) * IMAG
    raise TypeError("not a term: %r" % (x,))


def frac_of_float(x):
    return _nc(Fraction(repr(float(x))))


def const(c):
    c = _nc(Fraction(c)) if not isinstance(c, int) else c
    return Poly.make({(): c}) if c != 0 else Poly.make({})


ZERO = Poly.make({})
ONE = Poly.make({(): 1})
I_ATOM = atom("I", (), "real", False)
IMAG = I_ATOM.poly
PI_ATOM = atom("pi", (), "real", True)
PI = PI_ATOM.poly


def fresh(prefix="v", sort="int"):
    _fresh[0] += 1
    return atom("var", ("%s!%d" % (prefix, _fresh[0]), sort), sort, True).poly


def var(name, sort="int"):
    return atom("var", (name, sort), sort, True).poly


def the_atom(p):
    """The atom of a polynomial that is exactly one atom."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


SPECIAL = ("exp", "cis", "sqrt", "abs", "I")


def mono_mul(m1, m2):
    """Product of two monomials: (sign, monomial) or a Poly."""
    if not m1:
        return 1, m2
    if not m2:
        return 1, m1
    d = dict(m1)
    special = False
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    nexp = ncis = 0
    for a, e in d.items():
        k = a.kind
        if k in SPECIAL:
            if k == "exp":
                nexp += 1
                if e != 1:
                    special = True
            elif k == "cis":
                ncis += 1
                if e != 1:
                    special = True
            elif e >= 2 or e <= -2 or (k == "I" and e < 0):
                special = True
        elif k == "inv" and e < 0:
            special = True
    if nexp > 1 or ncis > 1:
        special = True
    if special:
        return mono_special(d)
    return 1, tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=_akey))


def _akey(x):
    return x[0].id


def mono_special(d):
    sign = 1
    rest = {}
    earg = ZERO
    carg = ZERO
    extra = []
    for a, e in d.items():
        if e == 0:
            continue
        k = a.kind
        if k == "I":
            e %= 4
            if e >= 2:
                sign = -sign
                e -= 2
            if e:
                rest[a] = 1
        elif k == "exp":
            earg = earg + a.args[0] * e
        elif k == "cis":
            carg = carg + a.args[0] * e
        elif k == "sqrt" and (e >= 2 or e <= -2):
            h, r = divmod(abs(e), 2)
            base = ppow(a.args[0], h)
            extra.append(base if e > 0 else inv(base))
            if r:
                rest[a] = 1 if e > 0 else -1
        elif k == "abs" and (e >= 2 or e <= -2):
            h, r = divmod(abs(e), 2)
            base = a.args[0] * conj(a.args[0])
            NONNEG.add(base.id)
            base = ppow(base, h)
            extra.append(base if e > 0 else inv(base))
            if r:
                rest[a] = 1 if e > 0 else -1
        elif k == "inv" and e < 0:
            extra.append(ppow(a.args[0], -e))
        else:
            rest[a] = e
    if earg.t:
        extra.append(exp(earg))
    if carg.t:
        extra.append(cis(carg))
    r = Poly.make({tuple(sorted(rest.items(), key=_akey)): sign})
    for x in extra:
        r = r * x
    return r


def ppow(p, e):
    p = P(p)
    if isinstance(e, Poly):
        c = e.const()
        if c is None:
            return powsym(p, e)
        e = c
    if isinstance(e, Fraction):
        if e.denominator == 1:
            e = e.numerator
        elif e.denominator == 2:
            return ppow(sqrt(p), e.numerator)
        else:
            return powsym(p, const(e))
    if e == 0:
        return ONE
    if e < 0:
        return inv(ppow(p, -e))
    r = ONE
    b = p
    while e:
        if e & 1:
            r = r * b
        e >>= 1
        if e:
            b = b * b
    return r


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def powsym(b, e):
    """b ** e for a symbolic exponent; b**(e+c) is normalised to b**e * b**c
    only for integer constants c."""
    bc = b.const()
    if bc == 1:
        return ONE
    if e.t and not (bc is not None and e.is_int) and min(e.t.items(), key=lambda kv: _mono_key(kv[0]))[1] < 0:
        return inv(powsym(b, -e))            # b**-e == 1/b**e: one representative per pair
    return atom("pow", (b, e), "int" if (b.is_int and e.is_int and False) else "real",
                b.is_real).poly


def ipow(b, e):
    """b ** e for a positive integer constant b and an exponent known to be a non-negative integer."""
    e = P(e)
    c = e.const()
    if c is not None:
        return ppow(P(b), c)
    return atom("pow", (P(b), e), "int", True).poly


def quotient(p, d):
    """q with p = q * d as polynomials (d linear in some variable), or None."""
    p, d = P(p), P(d)
    if len(d.t) < 2:
        return None
    if not p.t:
        return p
    for m, c in d.t.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "var":
            continue
        v = m[0][0]
        if any(a is v for k in d.t if k != m for a, _ in k):
            continue
        root = (Poly.make({m: c}) - d) / c
        co = {}
        for k, x in p.t.items():
            e = dict(k).get(v, 0)
            co.setdefault(e, {})[tuple(z for z in k if z[0] is not v)] = x
        lo, hi = min(co), max(co)
        if hi - lo > 8:
            return None
        acc, q = ZERO, ZERO
        for e in range(hi, lo, -1):
            acc = Poly.make(co.get(e, {})) + root * acc
            q = q + acc * Poly.make({((v, e - 1),): 1} if e != 1 else {(): 1})
        if not (Poly.make(co.get(lo, {})) + root * acc).t:
            return q / c
    return None


def inv(p):
    p = P(p)
    if not p.t:
        return atom("inv", (p,), "real", True).poly
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.make({(): _nc(Fraction(1) / c)})
        for a, e in m:
            if a.kind == "inv":
                r = r * ppow(a.args[0], e)
            elif a.kind == "exp":
                r = r * exp(-a.args[0] * e)
            elif a.kind == "cis":
                r = r * cis(-a.args[0] * e)
            elif a.kind == "I":
                r = r * (-IMAG)
            else:
                r = r * Poly.make({((a, -e),): 1})
        return r
    # factor out the common monomial and the leading coefficient
    common = None
    for m in p.t:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for a in list(common):
                if a not in dm:
                    del common[a]
                else:
                    e1, e2 = common[a], dm[a]
                    common[a] = min(e1, e2) if e1 > 0 and e2 > 0 else (
                        max(e1, e2) if e1 < 0 and e2 < 0 else 0)
                    if common[a] == 0:
                        del common[a]
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if a.kind not in ("exp", "cis", "I")}
    if common:
        cm = Poly.make({tuple(sorted(common.items(), key=_akey)): 1})
        icm = inv(cm)
        return icm * inv(p * icm)
    lead = min(p.t, key=lambda m: (-sum(e for _, e in m), tuple((a.id, e) for a, e in m)))
    c = p.t[lead]
    q = p * const(Fraction(1) / c)
    return const(Fraction(1) / c) * atom("inv", (q,), "real", q.is_real).poly


def exp(p):
    p = P(p)
    if not p.t:
        return ONE
    # split off the imaginary part into cis
    re, im = split_I(p)
    if im is not None:
        r = ONE
        if re.t:
            r = exp(re)
        return r * cis(im / (2 * PI))
    if not p.is_real:
        q = conj(p)
        if not (p + q).t:
            return cis(p / (2 * PI * IMAG))      # purely imaginary exponent
        if not (p - q).t:
            return atom("exp", (p,), "real", True).poly
        return atom("cexp", (p,), "real", False).poly
    # exp(c*log(a)) = a**c for a single log monomial with rational coefficient
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            return ppow(m[0][0].args[0], const(c))
    return atom("exp", (p,), "real", True).poly


def split_I(p):
    """p = re + I*im syntactically with both free of complex atoms; else (p, None)."""
    re, im = {}, {}
    for m, c in p.t.items():
        hasI = False
        for a, e in m:
            if a is I_ATOM:
                hasI = True
            elif not a.real:
                return p, None
        if hasI:
            im[tuple(x for x in m if x[0] is not I_ATOM)] = c
        else:
            re[m] = c
    if not im:
        return p, None
    return Poly.make(re), Poly.make(im)


def cis(u):
    """exp(2*pi*i*u), u real, in turns."""
    u = P(u)
    d = {}
    quarter = 0
    for m, c in u.t.items():
        if m == ():
            f = Fraction(c) % 1
            q = f * 4
            if q.denominator == 1:
                quarter = int(q)
            else:
                d[m] = _nc(f)
        elif all(a.sort == "int" and e > 0 for a, e in m):
            # integer multiples vanish; keep the fractional part of the coefficient
            f = Fraction(c) % 1
            if f != 0:
                d[m] = _nc(f)
        else:
            d[m] = c
    r = (ONE, IMAG, -ONE, -IMAG)[quarter]
    if len(d) == 1:
        # cis(+-arccos(u)/(2 pi)) = u +- i sqrt(1 - u^2)
        (m, c), = d.items()
        ac = [a for a, e in m if a.kind == "fn:arccos" and e == 1]
        if len(m) == 2 and len(ac) == 1 and abs(c) == Fraction(1, 2) and any(a is PI_ATOM and e == -1 for a, e in m):
            u = ac[0].args[0]
            s = sqrt(ONE - u * u)
            return r * (u + IMAG * s * (1 if c > 0 else -1))
    if d:
        r = r * atom("cis", (Poly.make(d),), "real", False).poly
    return r


def cos(theta):
    u = P(theta) / (2 * PI)
    return (cis(u) + cis(-u)) / 2


def sin(theta):
    u = P(theta) / (2 * PI)
    return (cis(u) - cis(-u)) / (2 * IMAG)


def _isqrt_frac(c):
    from math import isqrt
    c = Fraction(c)
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(p):
    p = P(p)
    c = p.const()
    if c is not None:
        r = _isqrt_frac(c)
        if r is not None:
            return const(r)
    if len(p.t) == 1:
        # sqrt(c * m) with c>0 a square: pull the constant out
        (m, k), = p.t.items()
        r = _isqrt_frac(k) if k > 0 else None
        if r is not None and r != 1:
            return const(r) * sqrt(Poly.make({m: 1}))
    return atom("sqrt", (p,), "real", True).poly


def pabs(p):
    """Modulus of a complex (or real) polynomial."""
    p = P(p)
    c = p.const()
    if c is not None:
        return const(abs(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(abs(c))
        for a, e in m:
            r = r * ppow(_abs_atom(a), e) if e > 0 else r * inv(ppow(_abs_atom(a), -e))
        return r
    if p.is_real:
        return atom("abs", (_absnorm(p),), "int" if p.is_int else "real", True).poly
    return atom("abs", (_absnorm(p),), "real", True).poly


def _absnorm(p):
    """Canonical sign."""
    lead = min(p.t, key=lambda m: tuple((a.id, e) for a, e in m))
    return -p if p.t[lead] < 0 else p


def _abs_atom(a):
    k = a.kind
    if k in ("I", "cis"):
        return ONE
    if k in ("exp", "sqrt", "abs", "pi"):
        return a.poly
    if k == "ite":
        c, x, y = a.args
        return ite(c, pabs(x), pabs(y))
    if k == "inv":
        return inv(pabs(a.args[0]))
    p = a.poly
    if not a.real:
        # |z| = |conj z|: canonical representative
        cp = the_atom(conj(p))
        if cp is not None and cp.id < a.id:
            p = cp.poly
    return atom("abs", (p,), a.sort, True).poly


def conj(p):
    p = P(p)
    if p.is_real:
        return p
    if p._conj is None:
        r = ZERO
        for m, c in p.t.items():
            q = const(c)
            for a, e in m:
                if a is I_ATOM:
                    q = q * (-IMAG)
                elif a.real:
                    q = q * Poly.make({((a, e),): 1})
                else:
                    ca = conj_atom(a)
                    q = q * (ppow(ca, e) if e > 0 else inv(ppow(ca, -e)))
            r = r + q
        p._conj = r
        r._conj = p
    return p._conj


def conj_atom(a):
    k = a.kind
    if k == "elem":
        return atom("elem", a.args[:2] + (not a.args[2],), a.sort, a.real).poly
    if k == "cis":
        return cis(-a.args[0])
    if k == "ite":
        return ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    if k == "bind":
        op, n, v, body, extra, cj = a.args
        if op == "sum":
            return bind_raw("sum", n, v, conj(body), extra)
        return atom("bind", (op, n, v, body, extra, not cj), a.sort, a.real).poly
    if k == "inv":
        return inv(conj(a.args[0]))
    if k == "conj":
        return a.args[0]
    return atom("conj", (a.poly,), a.sort, a.real).poly


def re(p):
    p = P(p)
    return p if p.is_real else (p + conj(p)) / 2


def im(p):
    p = P(p)
    return ZERO if p.is_real else (p - conj(p)) / (2 * IMAG)


def floor(p):
    p = P(p)
    if p.is_int:
        return p
    c = p.const()
    if c is not None:
        return const(c.numerator // c.denominator)
    # pull integer part out
    ip, rest = {}, {}
    for m, c in p.t.items():
        if all(a.sort == "int" and e > 0 for a, e in m):
            w = Fraction(c).numerator // Fraction(c).denominator
            if w:
                ip[m] = w
            f = Fraction(c) - w
            if f:
                rest[m] = _nc(f)
        else:
            rest[m] = c
    if not any(rest):                    # only a constant in [0, 1) is left
        return Poly.make(ip)
    half = Fraction(1, 2)
    if len(rest) > 1 and rest.get(()) == half and all(c == half and all(a.sort == "int" and e > 0 for a, e in m)
                                                      for m, c in rest.items()):
        # floor((z+1)/2) = z - floor(z/2) for an integer z
        z = Poly.make({m: 1 for m in rest if m})
        return Poly.make(ip) + z - atom("floor", (Poly.make({m: half for m in rest if m}),), "int", True).poly
    for m, c in rest.items():
        if c == half and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "mod" and P(m[0][0].args[1]).const() == 2:
            # mod(z, 2)/2 = z/2 - floor(z/2)
            z = m[0][0].args[0]
            q = Poly.make(rest) - Poly.make({m: c}) + z * half - floor(z * half)
            if q.is_int:
                return Poly.make(ip) + q
    return Poly.make(ip) + atom("floor", (Poly.make(rest),), "int", True).poly


def ceil(p):
    return -floor(-P(p))


def rnd(p):
    """round half to even."""
    p = P(p)
    if p.is_int:
        return p
    c = p.const()
    if c is not None:
        return const(round(Fraction(c)))
    return atom("round", (p,), "int", True).poly


def trunc(p):
    p = P(p)
    if p.is_int:
        return p
    return ite(ge(p, 0), floor(p), ceil(p))


def mod(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        r = Fraction(ca) - Fraction(cb) * ((Fraction(ca) / Fraction(cb)).__floor__())
        return const(r)
    if cb == 1 and a.is_int:
        return ZERO
    if cb is not None and a.is_int and isinstance(cb, int) and cb > 0:
        d = {}
        for m, c in a.t.items():
            c = c % cb
            if c:
                d[m] = c
        a = Poly.make(d)
        if a.const() is not None:
            return const(a.const() % cb)
    if a.is_int and b.is_int and cb is None:
        # mod(mod(x, b) + y, b) = mod(x + y, b); multiples of b drop out
        for m, c in list(a.t.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "mod" and m[0][0].args[1] is b and \
                    m[0][0].args[0].is_int and Fraction(c).denominator == 1:
                a = a - Poly.make({m: c}) + m[0][0].args[0] * c
        if len(b.t) == 1:
            (bm, bc), = b.t.items()
            c = a.t.get(bm)
            if c is not None and (Fraction(c) / Fraction(bc)).denominator == 1:
                a = a - Poly.make({bm: c})
        if not a.t:
            return ZERO
    return atom("mod", (a, b), "int" if a.is_int and b.is_int else "real", True).poly


def fdiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return const((Fraction(ca) / Fraction(cb)).__floor__())
    if cb is not None and cb != 0:
        return floor(a / b)
    return atom("fdiv", (a, b), "int", True).poly


def fn(name, args, sort="real", real=True):
    return atom("fn:" + name, tuple(args), sort, real).poly


def log(p):
    p = P(p)
    c = p.const()
    if c == 1:
        return ZERO
    a = the_atom(p)
    if a is not None and a.kind == "exp":
        return a.args[0]
    if a is not None and a.kind == "pow" and a.args[0].const() is not None and a.args[0].const() > 0:
        return a.args[1] * log(a.args[0])
    return atom("log", (p,), "real", True).poly


def elem(arr, idx, real, sort="real"):
    """Element of an uninterpreted input array."""
    return atom("elem", (arr, tuple(idx), False), sort, real).poly


# ---------------------------------------------------------------- formulas
class Formula:
    __slots__ = ("op", "args", "id", "fv", "depth")

    def __and__(self, o):
        return And(self, B(o))

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, B(o))

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic formula")

    def __repr__(self):
        return show_f(self)


def form(op, args):
    key = (op, args)
    f = _forms.get(key)
    if f is None:
        f = Formula()
        _counter[0] += 1
        f.id = _counter[0]
        f.op, f.args = op, args
        f.fv, f.depth = _fvdepth(args)
        _forms[key] = f
    return f


TRUE = form("true", ())
FALSE = form("false", ())


def B(x):
    if isinstance(x, Formula):
        return x
    return TRUE if x else FALSE


def _posnorm(p):
    """Scale by a positive rational to make coefficients canonical."""
    if not p.t:
        return p
    from math import gcd
    den = 1
    for c in p.t.values():
        d = c.denominator if isinstance(c, Fraction) else 1
        den = den * d // gcd(den, d)
    g = 0
    for c in p.t.values():
        g = gcd(g, abs(int(c * den)))
    f = Fraction(den, g)
    if f == 1:
        return p
    return Poly.make({m: _nc(c * f) for m, c in p.t.items()})


def le0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    q = _posnorm(p)
    if p.is_int or q.is_int:
        # tighten: sum c_i x_i + k <= 0 with gcd g of the c_i
        from math import gcd
        g = 0
        for m, c in q.t.items():
            if m != ():
                g = gcd(g, abs(c))
        if g > 1:
            k = q.t.get((), 0)
            d = {m: c // g for m, c in q.t.items() if m != ()}
            kk = -((-k) // g)
            if kk:
                d[()] = kk
            q = Poly.make(d)
    s = quick_sign(q)
    if s is not None and s <= 0:
        return TRUE
    if s is not None and s > 0 and s == 2:
        return FALSE
    return form("le", (q,))


def quick_sign(p):
    """Cheap syntactic sign: 2 if surely > 0, 1 surely >= 0, -1 surely <= 0,
    None unknown (0 is not returned)."""
    pos = neg = False
    strict = False
    for m, c in p.t.items():
        s = 2
        for a, e in m:
            if e % 2 == 0 and a.real:
                s = min(s, 1)
            elif a.kind in ("exp", "pi"):
                pass
            elif a.kind in ("sqrt", "abs"):
                s = min(s, 1)
            else:
                return None
        if c > 0:
            pos = True
            if s == 2:
                strict = True
        else:
            neg = True
    if pos and neg:
        return None
    if pos:
        return 2 if strict else 1
    return -1


def lt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    q = _posnorm(p)
    if q.is_int:
        return le0(q + 1)
    s = quick_sign(q)
    if s is not None and s > 0:
        return FALSE
    return form("lt", (q,))


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    q = _posnorm(p)
    lead = min(q.t, key=lambda m: tuple((a.id, e) for a, e in m))
    if q.t[lead] < 0:
        q = -q
    if q.is_int:
        from math import gcd
        g = 0
        for m, c in q.t.items():
            if m != ():
                g = gcd(g, abs(c))
        k = q.t.get((), 0)
        if g and k % g:
            return FALSE
    return form("eq", (q,))


def le(a, b):
    return le0(P(a) - P(b))


def lt(a, b):
    return lt0(P(a) - P(b))


def ge(a, b):
    return le0(P(b) - P(a))


def gt(a, b):
    return lt0(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return Not(eq(a, b))


def Not(f):
    f = B(f)
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    if f.op == "le":
        return lt0(-f.args[0])
    if f.op == "lt":
        return le0(-f.args[0])
    if f.op == "and":
        return Or(*[Not(x) for x in f.args])
    if f.op == "or":
        return And(*[Not(x) for x in f.args])
    return form("not", (f,))


def And(*fs):
    out = []
    seen = set()
    for f in fs:
        f = B(f)
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        for g in (f.args if f.op == "and" else (f,)):
            if g.id not in seen:
                if Not(g).id in seen:
                    return FALSE
                seen.add(g.id)
                out.append(g)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return form("and", tuple(sorted(out, key=lambda f: f.id)))


def Or(*fs):
    out = []
    seen = set()
    for f in fs:
        f = B(f)
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        for g in (f.args if f.op == "or" else (f,)):
            if g.id not in seen:
                if _simple_neg(g) in seen:
                    return TRUE
                seen.add(g.id)
                out.append(g)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return form("or", tuple(sorted(out, key=lambda f: f.id)))


def _simple_neg(g):
    if g.op in ("le", "lt", "not", "eq", "bvar", "bfn"):
        return Not(g).id
    return -1


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = B(a), B(b)
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    return And(Or(Not(a), b), Or(a, Not(b)))


def bfn(name, args):
    return form("bfn", (name, tuple(args)))


def bvar(name):
    return form("bvar", (name,))


def belem(arr, idx):
    """Element of an uninterpreted boolean array."""
    return form("belem", (arr, tuple(idx)))


def forall(v, f):
    """v: Poly (a var)."""
    a = the_atom(v)
    if a not in f.fv:
        return f
    if f.op == "or":
        inn = [g for g in f.args if a in g.fv]
        for g in inn:
            if g.op == "not" and g.args[0].op == "eq":
                e = _one_point(g.args[0].args[0], a)
                if e is not None:
                    return Or(*[h if a not in h.fv else subst(h, {a: e}) for h in f.args if h is not g])
        if len(inn) < len(f.args):
            return Or(forall(v, Or(*inn)), *[g for g in f.args if a not in g.fv])
    d = f.depth + 1
    w = atom("var", ("@%d" % d, "int"), "int", True)
    body = subst(f, {a: w.poly})
    r = form("forall", (w.poly, body))
    r.fv = body.fv - {w}
    r.depth = d
    return r


def _one_point(p, a):
    """e with  p == 0  iff  a == e, for an integer e free of a"""
    m = ((a, 1),)
    c = p.t.get(m)
    if c not in (1, -1) or not p.is_int or any(a in x.fv for k in p.t if k != m for x, _ in k):
        return None
    return a.poly - p * c


def exists(v, f):
    return Not(forall(v, Not(f)))


def fite(c, a, b):
    return And(Implies(c, a), Implies(Not(c), b))


def ite(c, a, b):
    c = B(c)
    if c is TRUE:
        return P(a)
    if c is FALSE:
        return P(b)
    a, b = P(a), P(b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq" and c.args[0] is b and len(b.t) == 1:
        # mod(z, n) with 0 replaced by n:  1 + mod(z - 1, n)
        ma = the_atom(b)
        if ma is not None and ma.kind == "mod" and ma.args[1] is a and a.is_int and ma.args[0].is_int and nonneg_len(a):
            return 1 + mod(ma.args[0] - 1, a)
    a = _prune(a, c, True)
    b = _prune(b, c, False)
    if a is b:
        return a
    # ite(c, s+x, s+y) = s + ite(c, x, y)
    common = {m: k for m, k in a.t.items() if b.t.get(m) == k}
    if common:
        cp = Poly.make(common)
        a, b = a - cp, b - cp
    else:
        cp = None
    if c.op == "le" and not common:
        pass
    sort = "int" if (a.is_int and b.is_int) else "real"
    r = atom("ite", (c, a, b), sort, a.is_real and b.is_real).poly
    return r + cp if cp is not None else r


def _prune(p, c, val):
    """Simplify top-level ite atoms with the same condition."""
    hit = None
    for m in p.t:
        for a, _ in m:
            if a.kind == "ite" and a.args[0] is c:
                hit = a
                break
        if hit:
            break
    if hit is None:
        return p
    return _prune(subst_atom(p, hit, hit.args[1] if val else hit.args[2]), c, val)


def subst_atom(p, at, val):
    """Replace top-level occurrences of one atom in a polynomial."""
    r = ZERO
    for m, c in p.t.items():
        q = const(c)
        for a, e in m:
            if a is at:
                q = q * (ppow(val, e) if e > 0 else inv(ppow(val, -e)))
            else:
                q = q * Poly.make({((a, e),): 1})
        r = r + q
    return r


def pmin(*xs):
    xs = [P(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        r = ite(le(r, x), r, x)
    return r


def pmax(*xs):
    xs = [P(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        r = ite(ge(r, x), r, x)
    return r


# ---------------------------------------------------------------- binders
def bind_raw(op, n, v, body, extra=()):
    a = atom("bind", (op, n, v, body, extra, False), "real",
             body.is_real and op in ("sum", "hilb", "amax", "amin", "prod", "sort"))
    return a.poly


def bind(op, n, f, extra=()):
    """Binder over 0 <= i < n of body f(i).  op: sum, dft (extra=(k,)), ..."""
    n = P(n)
    v = fresh("b")
    body = P(f(v))
    return close_bind(op, n, v, body, extra)


def close_bind(op, n, v, body, extra=()):
    if op in ("sum", "dft", "hilb") and not body.t:
        return ZERO
    va = the_atom(v)
    if op in ("sum", "dft") and va in body.fv:
        body = _ite_factors(body, va)
        if len(body.t) == 1:
            (m, c), = body.t.items()
            for a, e in m:
                if a.kind == "ite" and e == 1 and va not in a.args[0].fv and va in a.fv:
                    rest = Poly.make({tuple(x for x in m if x[0] is not a): c})
                    return ite(a.args[0], close_bind(op, n, v, rest * a.args[1], extra),
                               close_bind(op, n, v, rest * a.args[2], extra))
    if op == "dft":
        extra = (_strip_mod(P(extra[0]), n),) + tuple(extra[1:])
        fac, rest = _split_factor(body, va)
        if fac is not None:
            return fac * close_bind(op, n, v, rest, extra)
    if op == "sort" and va not in body.fv:
        return body
    if op == "hilb":
        # real-linear, zero on constants
        if va not in body.fv:
            return ZERO
        if len(body.t) <= 12 and all(_realfac(m, va) for m in body.t):
            out = ZERO
            for m, c in body.t.items():
                inner = tuple(x for x in m if va in x[0].fv)
                if inner:
                    outer = Poly.make({tuple(x for x in m if va not in x[0].fv): c})
                    out = out + outer * _bind_atom(op, n, v, va, Poly.make({inner: 1}), extra)
            return out
    if op == "sum":
        if va not in body.fv:
            return ite(ge(n, 0), n, 0) * body if not nonneg_len(n) else n * body
        c = n.const()
        if c is not None and c <= 8:
            r = ZERO
            for i in range(int(c)):
                r = r + subst(body, {va: const(i)})
            return r
        # pull a factor common to all monomials and free of the bound variable out
        fac, rest = _split_factor(body, va)
        if fac is not None:
            return fac * close_bind(op, n, v, rest, extra)
    return _bind_atom(op, n, v, va, body, extra)


def _strip_mod(k, n):
    """A transform of length n is periodic in its index: mod(e, n) -> e."""
    for m, c in list(k.t.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "mod" and m[0][0].args[1] is n and \
                Fraction(c).denominator == 1 and m[0][0].args[0].is_int:
            k = k - Poly.make({m: c}) + m[0][0].args[0] * c
    return k


def _realfac(m, va):
    return all(x.real for x, e in m)


def _bind_atom(op, n, v, va, body, extra):
    d = body.depth + 1
    w = atom("var", ("@%d" % d, "int"), "int", True)
    body2 = subst(body, {va: w.poly})
    at = atom("bind", (op, n, w.poly, body2, tuple(extra), False), "real",
              op in ("sum", "hilb", "amax", "amin", "prod", "sort") and (body2.is_real or not (conj(body2) - body2).t))
    if at.depth < d or w in at.fv:
        # recompute: bound variable is not free, depth is d
        at.fv = (n.fv | (body2.fv - {w}) | frozenset().union(*[P(e).fv for e in extra]))
        at.depth = max(d, n.depth, *[P(e).depth for e in extra])
        pp = at.poly
        pp.fv, pp.depth = at.fv, at.depth
    return at.poly


_NONNEG = set()


def nonneg_len(n):
    c = n.const()
    if c is not None:
        return c >= 0
    if n.id in _NONNEG:
        return True
    return len(n.t) > 0 and all(
        isinstance(c, (int, Fraction)) and c > 0 and all(e % 2 == 0 and a.real or a.poly.id in _NONNEG for a, e in m)
        for m, c in n.t.items())


def declare_nonneg(n):
    _NONNEG.add(P(n).id)


def _ite_factors(body, va):
    """ite(c, k*x, 0) -> k*ite(c, x, 0) for factors k free of the bound variable."""
    out = None
    for m, c in body.t.items():
        for a, e in m:
            if a.kind == "ite" and e == 1 and not a.args[2].t and va in a.fv:
                fac, rest = _split_factor(a.args[1], va)
                if fac is not None:
                    if out is None:
                        out = body
                    out = out - Poly.make({m: c}) + \
                        Poly.make({tuple(x for x in m if x[0] is not a): c}) * fac * ite(a.args[0], rest, ZERO)
                break
    return body if out is None else out


def _split_factor(body, va):
    """body = fac * rest with fac a monomial free of va (None if trivial)."""
    common = None
    for m in body.t:
        dm = {a: e for a, e in m if va not in a.fv}
        if common is None:
            common = dm
        else:
            common = {a: e for a, e in common.items() if dm.get(a) == e}
        if not common:
            break
    coeffs = list(body.t.values())
    c0 = coeffs[0]
    same = all(c == c0 for c in coeffs) and c0 != 1
    if not common and not same:
        return None, None
    fac = Poly.make({tuple(sorted((common or {}).items(), key=_akey)): c0 if same else 1})
    cm = common or {}
    return fac, Poly.make({tuple(x for x in m if x[0] not in cm): (c / c0 if same else c) for m, c in body.t.items()})


def open_bind(a):
    """Instantiate the bound variable of a binder atom with a fresh variable."""
    op, n, w, body, extra, cj = a.args
    v = fresh("i")
    return v, subst(body, {the_atom(w): v})


def bsum(n, f):
    return bind("sum", n, f)


def dft(n, f, k):
    return bind("dft", n, f, (P(k),))


# ---------------------------------------------------------------- substitution
def subst(x, m):
    """Simultaneous substitution of atoms (usually vars) by Polys."""
    keys = frozenset(m)
    simple = all(a.kind == "var" for a in keys)
    r = _subst(x, m, keys, {}, simple)
    if simple and x.id in NONNEG:
        NONNEG.add(r.id)
    return r


NONNEG = set()      # ids of polynomials built as |z|^2 (kept under substitution of variables)


def _subst(x, m, keys, memo, simple):
    if simple and not (x.fv & keys):
        return x
    r = memo.get(x.id)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = ZERO
        direct = {}
        for mono, c in x.t.items():
            if simple and not any(a.fv & keys for a, _ in mono):
                direct[mono] = c
                continue
            q = const(c)
            for a, e in mono:
                v = _subst_atom(a, m, keys, memo, simple)
                if e == 1:
                    q = q * v
                else:
                    q = q * (ppow(v, e) if e > 0 else inv(ppow(v, -e)))
            r = r + q
        if direct:
            r = r + Poly.make(direct)
    else:
        r = _subst_form(x, m, keys, memo, simple)
    memo[x.id] = r
    return r


def _sub_args(args, m, keys, memo, simple):
    out = []
    for a in args:
        if isinstance(a, (Poly, Formula)):
            out.append(_subst(a, m, keys, memo, simple))
        elif isinstance(a, tuple):
            out.append(_sub_args(a, m, keys, memo, simple))
        else:
            out.append(a)
    return tuple(out)


def _subst_atom(a, m, keys, memo, simple):
    if a in keys:
        return m[a]
    if simple and not (a.fv & keys):
        return a.poly
    r = memo.get(a.id)
    if r is not None:
        return r
    k = a.kind
    if k in ("var", "I", "pi"):
        r = a.poly
    elif k == "bind":
        op, n, w, body, extra, cj = a.args
        n2 = _subst(n, m, keys, memo, simple)
        extra2 = _sub_args(extra, m, keys, memo, simple)
        v = fresh("b")
        body1 = subst(body, {the_atom(w): v})
        body2 = _subst(body1, m, keys, {}, simple)
        r = close_bind(op, n2, v, body2, extra2)
        if cj:
            r = conj(r)
    else:
        args = _sub_args(a.args, m, keys, memo, simple)
        r = rebuild(a, args)
    memo[a.id] = r
    return r


def rebuild(a, args):
    k = a.kind
    if args == a.args:
        return a.poly
    if k == "ite":
        return ite(*args)
    if k == "floor":
        return floor(args[0])
    if k == "round":
        return rnd(args[0])
    if k == "mod":
        return mod(*args)
    if k == "fdiv":
        return fdiv(*args)
    if k == "exp":
        return exp(args[0])
    if k == "cis":
        return cis(args[0])
    if k == "sqrt":
        return sqrt(args[0])
    if k == "abs":
        return pabs(args[0])
    if k == "log":
        return log(args[0])
    if k == "inv":
        return inv(args[0])
    if k == "pow":
        return ppow(args[0], args[1])
    if k == "conj":
        return conj(args[0])
    return atom(k, args, a.sort, a.real).poly


def _subst_form(f, m, keys, memo, simple):
    op = f.op
    if op in ("true", "false", "bvar"):
        return f
    if op == "forall":
        v, body = f.args
        v2 = fresh("q")
        b1 = subst(body, {the_atom(v): v2})
        return forall(v2, _subst(b1, m, keys, {}, simple))
    args = _sub_args(f.args, m, keys, memo, simple)
    if op == "le":
        return le0(args[0])
    if op == "lt":
        return lt0(args[0])
    if op == "eq":
        return eq0(args[0])
    if op == "not":
        return Not(args[0])
    if op == "and":
        return And(*args)
    if op == "or":
        return Or(*args)
    return form(op, args)


# ---------------------------------------------------------------- traversal
def sub_atoms(x, seen=None, out=None):
    """All atoms occurring anywhere in x (not under binders' bodies)."""
    if seen is None:
        seen, out = set(), []
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if isinstance(y, Poly):
            if y.id in seen:
                continue
            seen.add(y.id)
            for m in y.t:
                for a, _ in m:
                    if a.id not in seen:
                        seen.add(a.id)
                        out.append(a)
                        if a.kind == "bind":
                            stack.append(a.args[1])
                            stack.append(a.args[4])
                        else:
                            stack.extend(z for z in a.args if isinstance(z, (Poly, Formula, tuple)))
        elif isinstance(y, Formula):
            if y.id in seen:
                continue
            seen.add(y.id)
            stack.extend(z for z in y.args if isinstance(z, (Poly, Formula, tuple)))
    return out


def contains_kind(x, pred, seen=None):
    """Does any atom anywhere (including binder bodies) satisfy pred?"""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, Poly):
            if y.id in seen:
                continue
            seen.add(y.id)
            for m in y.t:
                for a, _ in m:
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    if pred(a):
                        return True
                    stack.extend(z for z in a.args if isinstance(z, (Poly, Formula, tuple)))
        elif isinstance(y, Formula):
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == "belem" and pred(y):
                return True
            stack.extend(z for z in y.args if isinstance(z, (Poly, Formula, tuple)))
    return False


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "I":
        return "i"
    if k == "pi":
        return "pi"
    if k == "elem":
        s = "%s[%s]" % (a.args[0], ",".join(show(x) for x in a.args[1]))
        return "conj(%s)" % s if a.args[2] else s
    if k == "ite":
        return "(%s ? %s : %s)" % (show_f(a.args[0]), show(a.args[1]), show(a.args[2]))
    if k == "bind":
        op, n, v, body, extra, cj = a.args
        s = "%s{%s<%s%s}(%s)" % (op, v, n, "".join("; %r" % e for e in extra), body)
        return "conj(%s)" % s if cj else s
    return "%s(%s)" % (k, ", ".join(repr(x) for x in a.args))


def show(p):
    if not p.t:
        return "0"
    parts = []
    for m, c in p.t.items():
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        parts.append(s)
    return " + ".join(parts).replace("+ -", "- ")


def show_f(f):
    o = f.op
    if o in ("true", "false"):
        return o
    if o in ("le", "lt", "eq"):
        return "%s %s 0" % (show(f.args[0]), {"le": "<=", "lt": "<", "eq": "=="}[o])
    if o == "not":
        return "!(%s)" % show_f(f.args[0])
    if o in ("and", "or"):
        return "(" + (" & " if o == "and" else " | ").join(show_f(x) for x in f.args) + ")"
    return "%s%r" % (o, f.args)


def top_monomial_atoms(p):
    out = {}
    for m in p.t:
        for a, e in m:
            out[a.id] = a
    return list(out.values())
