"""Obligation prover: polynomial normal forms, SMT-guided case analysis,
pointwise comparison of binders, sum manipulation; z3 for the leaves."""
import time
from fractions import Fraction
from . import terms as T
from . import smt
from .terms import Poly, Formula, P, TRUE, FALSE, ZERO, ONE, And, Or, Not


class Budget(Exception):
    pass


class Res:
    __slots__ = ("status", "model", "why")

    def __init__(self, status, model=None, why=""):
        self.status, self.model, self.why = status, model, why

    def __bool__(self):
        return self.status == "proved"


_deadline = [None]


def _tick():
    if _deadline[0] is not None and time.time() > _deadline[0]:
        raise Budget()


def ent(pc, g):
    _tick()
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    return smt.entails(pc, g) is True


class Pc(tuple):
    def add(self, *fs):
        out = list(self)
        ids = {f.id for f in out}
        for f in fs:
            for g in (f.args if f.op == "and" else (f,)):
                if g is TRUE or g.id in ids:
                    continue
                ids.add(g.id)
                out.append(g)
        return Pc(out)


# ------------------------------------------------------------------ helpers
def top_atoms(p):
    out = {}
    for m in p.t:
        for a, e in m:
            out[a.id] = a
    return list(out.values())


def deep_ites(x):
    return [a for a in T.sub_atoms(x) if a.kind == "ite"]


def rewrite(p, mapping):
    """Replace atoms (anywhere outside binder bodies) by polys."""
    if not mapping:
        return p
    return T._subst(p, mapping, frozenset(mapping), {}, False)


def solve_eqs(pc):
    """Substitution var -> expr from equalities in pc."""
    sub = {}
    for f in pc:
        if f.op != "eq":
            continue
        p = f.args[0]
        if sub:
            p = T.subst(p, sub)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                a = m[0][0]
                rest = p - Poly.make({m: c})
                if a in rest.fv:
                    continue
                e = -rest / c
                if a.sort == "int" and not e.is_int:
                    continue
                # prefer eliminating engine-made variables
                rank = (0 if "!" in a.args[0] else 1, len(rest.t))
                if best is None or rank < best[0]:
                    best = (rank, a, e)
        if best is None:
            continue
        a, e = best[1], best[2]
        sub = {k: T.subst(v, {a: e}) for k, v in sub.items()}
        sub[a] = e
    return sub


# ------------------------------------------------------------------ equality
def eq0(p, pc, fuel=40):
    _tick()
    if not p.t:
        return True
    if fuel <= 0:
        return False
    c = p.const()
    if c is not None:
        return ent(pc, FALSE)
    key = (p.id, frozenset(f.id for f in pc))
    r = _eqcache.get(key)
    if r is not None:
        return r
    r = _eq0(p, pc, fuel)
    if r or fuel > 30:
        _eqcache[key] = r
    return r


_eqcache = {}


def _eq0(p, pc, fuel):
    sub = solve_eqs(pc)
    if sub:
        q = T.subst(p, sub)
        if q is not p:
            p = q
            if not p.t:
                return True
    # 1. top-level ites
    p, undecided = resolve_top(p, pc)
    if not p.t:
        return True
    if undecided:
        # maybe equal already without splitting
        c = pick_cond(undecided)
        return split(p, c, pc, fuel)
    if len(p.t) == 1 or all(True for _ in ()):
        pass
    # 1a. everything written out over basic sums
    if fuel > 30 and any(a.kind == "bind" and a.args[0] == "sum" for a in top_atoms(p)):
        q = expand_sums(canon_sums(p, pc, bounds=False), pc, 120, 2)
        if not q.t or (q is not p and len(q.t) < 60 and any(a.kind == "inv" for a in top_atoms(q)) and eq0(q, pc, 6)):
            return True
    # 2. resolve mod / abs / floor at top level and inside cis
    q = resolve_arith(p, pc)
    if q is not p:
        return eq0(q, pc, fuel - 1)
    # 3. unify atoms
    q = unify(p, pc, fuel, False)
    if not q.t:
        return True
    if q is not p:
        return eq0(q, pc, fuel - 1)
    # 4. deltas / nested sums
    q = simplify_sums(p, pc, fuel)
    if q is not p:
        return eq0(q, pc, fuel - 1)
    q = unify(p, pc, fuel, True)
    if not q.t:
        return True
    if q is not p:
        return eq0(q, pc, fuel - 1)
    # 5. clear denominators
    q = clear_denoms(p, pc, fuel)
    if q is not None and q is not p:
        if eq0(q, pc, fuel - 1):
            return True
    # 6. linear combination of sums
    if sums_cancel(p, pc, fuel):
        return True
    if dfts_cancel(p, pc, fuel):
        return True
    if fuel > 10:
        q = canon_sums(p, pc)
        if q is not p and eq0(q, pc, fuel - 4):
            return True
    q = real_dfts(p, pc, fuel)
    if q is not p:
        return eq0(q, pc, fuel - 1)
    # 6a. distribute sums over their monomials
    if fuel > 10:
        q = expand_sums(p, pc)
        if q is not p and eq0(q, pc, fuel - 6):
            return True
    # 6b. resolve range of mod in cis by splitting
    c = cis_split(p, pc)
    if c is not None:
        return split(p, c, pc, fuel - 4)
    # 7. SMT
    if p.is_real or len(p.t) <= 6:
        if smt_size_ok(p) and ent(pc, T.eq0(p)):
            return True
    # 7b. dft expansion
    q = expand_dft(p)
    if q is not p:
        return eq0(q, pc, fuel - 6)
    # 8. split on a deep condition
    conds = []
    for a in deep_ites(p):
        c = a.args[0]
        if not (any(f is c for f in pc) or any(f is Not(c) for f in pc)):
            conds.append(c)
    if conds and fuel > 8:
        for c in conds[:1]:
            return split_deep(p, c, pc, fuel - 8)
    return False


def smt_size_ok(p):
    return len(p.t) <= 40


def pick_cond(conds):
    # prefer simple literals
    def key(c):
        return (0 if c.op in ("eq", "le", "lt", "not", "belem", "bvar") else len(c.args), c.id)
    return min(conds, key=key)


def resolve_top(p, pc):
    while True:
        changed = False
        und = []
        for a in top_atoms(p):
            if a.kind != "ite":
                continue
            c = a.args[0]
            if ent(pc, c):
                p = T.subst_atom(p, a, a.args[1])
                changed = True
                break
            if ent(pc, Not(c)):
                p = T.subst_atom(p, a, a.args[2])
                changed = True
                break
            und.append(c)
        if not changed:
            return p, und


def resolve_zero_tests(p, pc):
    """Resolve the top-level ites whose condition is z == 0 (or its negation) when pc excludes z == 0."""
    for _ in range(4):
        for a in top_atoms(p):
            if a.kind == "ite":
                c = a.args[0]
                z = c.args[0] if c.op == "not" else c
                if z.op == "eq" and excluded_zero(z.args[0], pc):
                    p = T.subst_atom(p, a, a.args[1] if c.op == "not" else a.args[2])
                    break
        else:
            return p
    return p


def excluded_zero(z, pc):
    """A strict hypothesis H < 0 of pc with H >= 0 wherever z = 0."""
    return any(h.op == "lt" and no_zero(z, h.args[0], pc, 4) for h in pc)


def no_zero(z, H, pc, fuel):
    z, und = resolve_top(z, pc)
    if und and fuel:
        for c in (und[0], Not(und[0])):
            pc2 = pc.add(c)
            if not ent(pc2, FALSE) and not no_zero(z, H, pc2, fuel - 1):
                return False
        return True
    H, _ = resolve_top(H, pc)
    if not z.t:
        return sign(H, pc) in (1, 2)
    if und or len(z.t) != 1:
        return False
    (m, _), = z.t.items()
    for a, e in m:
        if a.kind in ("inv", "pi") or e < 0 or sign_atom(a, pc, 5) in (2, -2):
            continue
        ca = T.the_atom(T.conj(a.poly))
        H0 = Poly.make({k: c for k, c in H.t.items() if not any(x is a or x is ca for x, _ in k)})
        if sign(H0, pc) not in (1, 2):
            return False
    return True


def split(p, c, pc, fuel):
    # split a conjunction literal by literal only when useful
    for cc, val in ((c, True), (Not(c), False)):
        pc2 = pc.add(cc)
        if ent(pc2, FALSE):
            continue
        q = assume_top(p, c, val)
        if not eq0(q, pc2, fuel - 1):
            return False
    return True


def assume_top(p, c, val):
    while True:
        hit = None
        for a in top_atoms(p):
            if a.kind == "ite" and a.args[0] is c:
                hit = a
                break
        if hit is None:
            return p
        p = T.subst_atom(p, hit, hit.args[1] if val else hit.args[2])


def split_deep(p, c, pc, fuel):
    for cc, val in ((c, True), (Not(c), False)):
        pc2 = pc.add(cc)
        if ent(pc2, FALSE):
            continue
        m = {a: (a.args[1] if val else a.args[2]) for a in deep_ites(p) if a.args[0] is c}
        q = rewrite(p, m)
        if not eq0(q, pc2, fuel - 1):
            return False
    return True


def arith_value(a, pc):
    """Closed form of a mod/fdiv/abs/floor/round atom under pc, or None."""
    k = a.kind
    if k == "mod":
        x, b = a.args
        if b.const() is not None and a.sort == "int":
            return None
        if not ent(pc, T.gt(b, 0)):
            return None
        for lo in (0, 1, -1, -2, 2):
            if ent(pc, And(T.le(b * lo, x), T.lt(x, b * (lo + 1)))):
                return x - b * lo
        return None
    if k == "fdiv":
        x, b = a.args
        if b.const() is None and any(f.op == "eq" and f.args[0] is T.mod(x, b) for f in pc) and nonzero(b, pc):
            return x * T.inv(b)
        if not ent(pc, T.gt(b, 0)):
            return None
        for lo in (0, 1, -1):
            if ent(pc, And(T.le(b * lo, x), T.lt(x, b * (lo + 1)))):
                return P(lo)
        return None
    if k == "abs" and a.args[0].is_real:
        x = a.args[0]
        if ent(pc, T.ge(x, 0)):
            return x
        if ent(pc, T.le(x, 0)):
            return -x
        return None
    if k in ("floor", "round"):
        x = a.args[0]
        # integer valued argument?
        r = int_value(x, pc)
        if r is not None:
            return r
        for d in (0, 1, -1):
            lo = P(d)
            if k == "floor":
                if ent(pc, And(T.le(lo, x), T.lt(x, lo + 1))):
                    return lo
        return None
    return None


def int_value(x, pc):
    """x is provably an integer-valued expression such as (N-1)/2 with N odd:
    returns None (parity reasoning is left to z3)."""
    return None


def resolve_arith(p, pc):
    mp = {}
    for a in T.sub_atoms(p):
        if a.kind == "fn:arg" or a.kind == "cis":
            v = arg_value(a, pc) if a.kind == "fn:arg" else cis_arg(a, pc)
            if v is not None:
                mp[a] = v
            continue
        if a.kind == "bind" and a.args[0] == "dft" and not a.args[4][0].depth:
            n, k = a.args[1], a.args[4][0]
            if k.t and k.const() is None and ent(pc, T.Or(*[T.eq(k, n * j) for j in (-1, 0, 1)])):
                v = T.fresh("b")
                r = T.close_bind("sum", n, v, T.subst(a.args[3], {T.the_atom(a.args[2]): v}))
                mp[a] = T.conj(r) if a.args[5] else r
            continue
        if a.kind in ("mod", "fdiv", "abs"):
            inside = in_cis_or_top(p, a)
            if not inside:
                continue
            v = arith_value(a, pc)
            if v is not None:
                mp[a] = v
    if not mp:
        return p
    return rewrite(p, mp)


def arg_value(a, pc):
    """arg(c * cis(u)) for c > 0"""
    z = a.args[0]
    if len(z.t) != 1:
        return None
    (m, c), = z.t.items()
    cs = [x for x, e in m if x.kind == "cis"]
    if len(cs) != 1 or dict(m)[cs[0]] not in (1, -1):
        return None
    k = Poly.make({tuple(x for x in m if x[0] is not cs[0]): c})
    s = sign(k, pc) if k.is_real else None
    if s not in (2, -2):
        return None
    u = cs[0].args[0] * dict(m)[cs[0]]
    if getattr(cs[0], "cj", False):
        u = -u
    if s == -2:
        u = u + P(1) / 2
    for j in (0, 1, -1, 2, -2):
        if ent(pc, And(T.gt(u - j, P(-1) / 2), T.le(u - j, P(1) / 2))):
            return 2 * T.PI * (u - j)
    return None


def cis_arg(a, pc):
    """cis(arg(z)/(2 pi) + u) = z/|z| * cis(u) for z known to be non-zero"""
    u = a.args[0]
    for m, c in u.t.items():
        ar = [x for x, e in m if x.kind == "fn:arg" and e == 1]
        if len(m) == 2 and len(ar) == 1 and abs(c) == P(1).const() / 2 and any(x is T.PI_ATOM and e == -1 for x, e in m):
            z = ar[0].args[0]
            if not nonzero(z, pc):
                continue
            if c < 0:
                z = T.conj(z)
            return z * T.inv(T.pabs(z)) * T.cis(u - Poly.make({m: c}))
    return None


def in_cis_or_top(p, a):
    for b in top_atoms(p):
        if b is a:
            return True
        if b.kind in ("cis", "exp", "ite", "sqrt", "log", "pow", "inv", "abs", "elem") and a in T.sub_atoms(b.poly):
            return b.kind != "elem"
    return False


def cis_split(p, pc):
    """A literal that would help resolve a mod inside a cis / abs at top."""
    for b in top_atoms(p):
        if b.kind == "abs" and b.args[0].is_real and not b.args[0].depth:
            return T.ge(b.args[0], 0)
        if b.kind != "cis":
            continue
        for a in T.sub_atoms(b.poly):
            if a.kind == "mod" and a.sort == "int" and a.args[1].const() is None:
                x, bb = a.args
                for c in (T.lt(x, 0), T.lt(x, bb), T.lt(x, -bb), T.lt(x, 2 * bb)):
                    if not ent(pc, c) and not ent(pc, Not(c)):
                        return c
            if a.kind == "ite":
                c = a.args[0]
                if not ent(pc, c) and not ent(pc, Not(c)):
                    return c
    return None


def group_key(a):
    k = a.kind
    if k == "elem":
        return ("elem", a.args[0])
    if k in ("cis", "exp", "sqrt", "log", "inv", "floor", "round"):
        return (k,)
    if k == "abs":
        return (k, a.args[0].is_real)
    if k in ("mod", "fdiv", "pow"):
        return (k,)
    if k.startswith("fn:"):
        return (k, len(a.args))
    if k == "bind":
        return ("bind", a.args[0])
    return None


def unify(p, pc, fuel, binds=True):
    """Rewrite provably equal atoms of p to a common representative."""
    groups = {}
    for a in top_atoms(p):
        g = group_key(a)
        if g is not None and (g[0] == "bind") == binds:
            groups.setdefault(g, []).append(a)
    # cis first: arguments usually agree after resolution
    for g, atoms in sorted(groups.items(), key=lambda kv: (kv[0][0] == "bind", str(kv[0]))):
        if len(atoms) < 2:
            continue
        atoms.sort(key=lambda a: a.id)
        for i, b in enumerate(atoms):
            for a in atoms[:i]:
                v = same_atom(a, b, pc, fuel)
                if v is not None:
                    q = T.subst_atom(p, b, v)
                    if q is not p:
                        return q
    return p


def same_atom(a, b, pc, fuel):
    """If provably b == v(a), the replacement for b."""
    k = a.kind
    if k == "elem":
        if a.args[1] == b.args[1] and a.args[2] != b.args[2]:
            return None
        if len(a.args[1]) != len(b.args[1]):
            return None
        for x, y in zip(a.args[1], b.args[1]):
            if not idx_equal(x, y, pc, fuel):
                return None
        if a.args[1] == b.args[1]:
            return None
        return a.poly if a.args[2] == b.args[2] else T.conj(a.poly)
    if k == "cis":
        d = a.args[0] - b.args[0]
        if simple_eq(d, pc, fuel):
            return a.poly
        d = a.args[0] + b.args[0]
        if simple_eq(d, pc, fuel):
            return T.conj(a.poly)
        return None
    if k in ("exp", "sqrt", "log", "inv"):
        if not a.args[0].is_real and k != "inv":
            return None
        d = a.args[0] - b.args[0]
        return a.poly if simple_eq(d, pc, fuel) else None
    if k in ("floor", "round", "mod", "fdiv"):
        return a.poly if ent(pc, T.eq(a.poly, b.poly)) else None
    if k == "abs":
        x, y = a.args[0], b.args[0]
        if eq0(x - y, pc, min(fuel, 10)) or (x.is_real and eq0(x + y, pc, min(fuel, 6))):
            return a.poly
        if not x.is_real and abs_sq_ok(x, y):
            if eq0(x * T.conj(x) - y * T.conj(y), pc, min(fuel, 12)):
                return a.poly
        return None
    if k == "pow":
        return a.poly if simple_eq(a.args[0] - b.args[0], pc, fuel) and \
            simple_eq(a.args[1] - b.args[1], pc, fuel) else None
    if k.startswith("fn:"):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if not simple_eq(x - y, pc, fuel):
                    return None
            elif x != y:
                return None
        return a.poly
    if k == "bind":
        r = bind_equal(a, b, pc, fuel)
        return r
    return None


def abs_sq_ok(x, y):
    return len(x.t) <= 4 and len(y.t) <= 4


def idx_equal(x, y, pc, fuel):
    if x is y:
        return True
    d = x - y
    if d.const() is not None:
        return False
    if ent(pc, T.eq(x, y)):
        return True
    return False


def simple_eq(d, pc, fuel):
    if not d.t:
        return True
    if d.const() is not None:
        return False
    if d.is_int and not T.contains_kind(d, lambda a: getattr(a, "kind", "") == "bind"):
        return ent(pc, T.eq0(d))
    return eq0(d, pc, min(fuel, 14) - 1)


_vn = {}


def value_names(p):
    r = _vn.get(p.id)
    if r is None:
        out = set()

        def pred(a):
            if getattr(a, "kind", None) == "elem" and a.sort != "int":
                out.add(a.args[0])
            return False
        T.contains_kind(p, pred)
        r = _vn[p.id] = frozenset(out)
    return r


def bind_equal(a, b, pc, fuel):
    op, n, w, body, extra, cj = a.args
    op2, n2, w2, body2, extra2, cj2 = b.args
    if op != op2 or len(extra) != len(extra2) or fuel < 2:
        return None
    if body is body2 and w is w2 and n is n2 and all(x is y for x, y in zip(extra, extra2)):
        return None          # the conjugate atom: nothing to unify
    if cj != cj2:
        # compare with the conjugate partner when that is present too (cheaper and symmetric)
        if op == "dft":
            return None
    if value_names(body) != value_names(body2):
        return None          # heuristic: generic arrays must occur on both sides
    if not simple_eq(n - n2, pc, fuel):
        return None
    for x, y in zip(extra, extra2):
        if isinstance(x, Poly):
            if not simple_eq(x - y, pc, fuel):
                if op != "dft" or not (x - y).is_int:
                    return None
                d = x - y            # equal up to a multiple of the length
                if not ent(pc, T.Or(*[T.eq(d, n * j) for j in (-2, -1, 0, 1, 2)])):
                    return None
        elif x != y:
            return None
    v = T.fresh("p")
    b1 = T.subst(body, {T.the_atom(w): v})
    b2 = T.subst(body2, {T.the_atom(w2): v})
    pc2 = pc.add(T.ge(v, 0), T.lt(v, n))
    if eq0(b1 - b2, pc2, fuel - 1):
        return a.poly if cj == cj2 else T.conj(a.poly)
    if op == "sum" and eq0(b1 + b2, pc2, 4):
        return -a.poly
    return None


# ------------------------------------------------------------------ sums
def expand_dft(p):
    mp = {}
    for a in top_atoms(p):
        if a.kind == "bind" and a.args[0] == "dft":
            mp[a] = dft_sum(a)
    if not mp:
        return p
    for a, v in mp.items():
        p = T.subst_atom(p, a, v)
    return p


def dft_sum(a):
    op, n, w, body, extra, cj = a.args
    v = T.fresh("b")
    k = extra[0]
    bb = T.subst(body, {T.the_atom(w): v}) * T.cis(-k * v / n)
    r = T.close_bind("sum", n, v, bb)
    return T.conj(r) if cj else r


def clear_denoms(p, pc, fuel):
    """Multiply by denominators that are provably non-zero."""
    for a in top_atoms(p):
        if a.kind == "inv":
            q = a.args[0]
            if not nonzero(q, pc, fuel):
                continue
            return mult_out(p, a, q)
        mn = 0
        for m in p.t:
            for b, e in m:
                if b is a and e < mn:
                    mn = e
        if mn < 0:
            if a.real and not nonzero(a.poly, pc, fuel):
                continue
            if not a.real and not nonzero(a.poly, pc, fuel):
                continue
            return p * Poly.make({((a, -mn),): 1}) if a.kind not in ("sqrt", "abs") else \
                mult_neg(p, a, -mn)
    return None


def mult_neg(p, a, e):
    r = ZERO
    f = T.ppow(a.poly, e)
    return p * f


def mult_out(p, a, q):
    emax = max((e for m in p.t for b, e in m if b is a), default=0)
    r = ZERO
    for m, c in p.t.items():
        e = 0
        rest = []
        for b, k in m:
            if b is a:
                e = k
            else:
                rest.append((b, k))
        r = r + Poly.make({tuple(rest): c}) * T.ppow(q, emax - e)
    return r


def nonzero(q, pc, fuel=10):
    if ent(pc, Not(T.eq0(q))):
        return True
    s = sign(q, pc)
    return s in (2, -2)


def sign(p, pc, depth=7):
    """2: >0, 1: >=0, -1: <=0, -2: <0, None."""
    _tick()
    c = p.const()
    if c is not None:
        return 2 if c > 0 else (-2 if c < 0 else 1)
    if not p.is_real and not (T.conj(p) - p).t == {}:
        return None
    if depth <= 0:
        return None
    res = None
    ok = True
    for m, c in p.t.items():
        s = 2 if c > 0 else -2
        d = dict(m)
        done = set()
        for a, e in m:
            if a.id in done:
                continue
            if e % 2 == 0 and a.real:
                t = 2 if sign_atom(a, pc, depth) in (2, -2) or ent(pc, Not(T.eq0(a.poly))) else 1
            elif not a.real:
                # z * conj z
                cz = T.the_atom(T.conj(a.poly))
                if cz is not None and d.get(cz) == e and cz is not a:
                    done.add(cz.id)
                    t = 2 if ent(pc, Not(T.eq0(a.poly))) else 1
                else:
                    ok = False
                    break
            else:
                t = sign_atom(a, pc, depth)
            if t is None:
                ok = False
                break
            neg = (s < 0) != (t < 0)
            mag = min(abs(s), abs(t))
            s = -mag if neg else mag
        if not ok:
            break
        if res is None:
            res = s
        elif (res > 0) == (s > 0):
            res = (1 if res > 0 else -1) * max(abs(res), abs(s))
        else:
            ok = False
            break
    if ok and res is not None:
        return res
    if p.id in T.NONNEG:
        return 2 if ent(pc, Not(T.eq0(p))) else 1
    W = square_factor(p)
    if W is not None:
        s = sign(W, pc, depth - 1)
        if s is not None:
            return 1 if s > 0 else -1
    if depth > 2 and len(p.t) > 1:
        s = sign_split(p, pc, depth)
        if s is not None:
            return s
    if p.is_real:
        if ent(pc, T.gt(p, 0)):
            return 2
        if ent(pc, T.lt(p, 0)):
            return -2
        if ent(pc, T.ge(p, 0)):
            return 1
        if ent(pc, T.le(p, 0)):
            return -1
    return None


def sign_split(p, pc, depth):
    """Sign by cases of the first undecided top-level condition of p."""
    conds = []
    for a in top_atoms(p):
        if a.kind == "ite" and a.args[0] not in conds:
            conds.append(a.args[0])
    if not conds or len(conds) > 4:
        return None
    c = pick_cond(conds)
    r = None
    for cc, val in ((c, True), (Not(c), False)):
        pc2 = pc.add(cc)
        if ent(pc2, FALSE):
            continue
        s = sign(resolve_top(assume_top(p, c, val), pc2)[0], pc2, depth - 1)
        if s is None or (r is not None and (r > 0) != (s > 0)):
            return None
        r = s if r is None or abs(s) < abs(r) else r
    return r


def square_factor(p):
    """W with p = W * (a sum of terms)^2, or None."""
    if not 3 <= len(p.t) <= 36:
        return None
    lo = None
    for m in p.t:
        d = dict(m)
        if lo is None:
            lo = dict(d)
        else:
            for a in set(lo) | set(d):
                lo[a] = min(lo.get(a, 0), d.get(a, 0))
    for adj in (0, 1):
        W = dict(lo)
        if adj:
            # odd total degree in some atom of the quotient: move one power into W
            return None
        q = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in W.items():
                d[a] = d.get(a, 0) - e
            q[tuple(sorted(((a, e) for a, e in d.items() if e), key=T._akey))] = c
        roots = []
        for sgn in (1, -1):
            roots = []
            for m, c in q.items():
                if all(e % 2 == 0 and a.real for a, e in m):
                    r = T._isqrt_frac(Fraction(c) * sgn) if isinstance(c, (int, Fraction)) and c * sgn > 0 else None
                    if r is not None:
                        roots.append((tuple((a, e // 2) for a, e in m), r))
            if not roots or len(roots) > 8:
                continue
            # a square monomial may also be a cross term: try the roots whose cross terms with the first agree
            m0, r0 = roots[0]
            tot = Poly.make({m0: r0})
            for m1, r1 in roots[1:]:
                x = Poly.make({m0: r0}) * Poly.make({m1: r1})
                (mx, cx), = x.t.items()
                cc = q.get(mx)
                if cc is None:
                    continue
                tot = tot + Poly.make({m1: r1 if cc * sgn > 0 else -r1})
            Q = Poly.make(q)
            if not (tot * tot * sgn - Q).t:
                return Poly.make({tuple(sorted(((a, e) for a, e in W.items() if e), key=T._akey)): sgn})
        return None


def sign_atom(a, pc, depth):
    k = a.kind
    if k in ("exp", "pi"):
        return 2
    if k == "sqrt":
        s = sign(a.args[0], pc, depth - 1)
        return 2 if s == 2 else 1
    if k == "abs":
        if ent(pc, T.gt(a.poly, 0)):
            return 2
        if depth > 1 and nonzero_c(a.args[0], pc, depth - 1):
            return 2
        return 1
    if k == "inv":
        s = sign(a.args[0], pc, depth - 1)
        return s if s in (2, -2) else None
    if k == "pow":
        s = sign(a.args[0], pc, depth - 1)
        return 2 if s == 2 else (1 if s == 1 else None)
    if k == "bind" and a.args[0] in ("sum", "prod", "amax", "amin"):
        op, n, w, body, extra, cj = a.args
        v = T.fresh("p")
        b = T.subst(body, {T.the_atom(w): v})
        pc2 = pc.add(T.ge(v, 0), T.lt(v, n))
        s = sign(b, pc2, depth - 1)
        if s in (None, 1) and op == "sum":
            q = simp_sum(a, pc)
            if q is not None and q is not a.poly:
                t = sign(q, pc, depth - 1)
                if t is not None:
                    return t
        if s is None:
            return None
        if s in (2, -2) and ent(pc, T.ge(n, 1)):
            return s
        if s in (2, -2):
            return s // 2
        # one provably positive term?
        if op == "sum" and ent(pc, T.ge(n, 1)):
            for t in witness_terms(b, v, n, pc):
                if ent(pc, And(T.ge(t, 0), T.lt(t, n))):
                    s2 = sign(T.subst(b, {T.the_atom(v): t}), pc, depth - 1)
                    if s2 in (2, -2):
                        return s2
        return s
    if k == "ite":
        if ent(pc, a.args[0]):
            return sign(a.args[1], pc, depth - 1)
        if ent(pc, Not(a.args[0])):
            return sign(a.args[2], pc, depth - 1)
        s1 = sign(a.args[1], pc.add(a.args[0]), depth - 1)
        s2 = sign(a.args[2], pc.add(Not(a.args[0])), depth - 1)
        if s1 is None or s2 is None:
            return None
        if (s1 > 0) == (s2 > 0):
            return s1 if abs(s1) < abs(s2) else s2
        return None
    if a.real:
        p = a.poly
        if ent(pc, T.gt(p, 0)):
            return 2
        if ent(pc, T.lt(p, 0)):
            return -2
        if ent(pc, T.ge(p, 0)):
            return 1
        if ent(pc, T.le(p, 0)):
            return -1
    return None


def nonzero_c(p, pc, depth):
    return ent(pc, Not(T.eq0(p)))


def witness_terms(b, v, n, pc=()):
    out = [ZERO, n - 1, T.ONE]
    va = T.the_atom(v)
    known = {}
    for f in pc:
        for z in T.sub_atoms(f):
            if z.kind == "elem":
                known.setdefault((z.args[0], len(z.args[1])), {})[z.id] = z
    for a in T.sub_atoms(b):
        if a.kind == "elem":
            for pos, i in enumerate(a.args[1]):
                li = smt.linear_in(i, va)
                if li and li[0] in (1, -1):
                    out.append(-li[1] * li[0])
                    for z in list(known.get((a.args[0], len(a.args[1])), {}).values())[:6]:
                        out.append((z.args[1][pos] - li[1]) * li[0])
        if a.kind == "ite" and a.args[0].op == "eq":
            li = smt.linear_in(a.args[0].args[0], va)
            if li and li[0] in (1, -1):
                out.append(-li[1] * li[0])
    return out


def delta_solve(cond, va):
    """cond = And(..., va == g, ...): returns (g, rest) or None."""
    parts = cond.args if cond.op == "and" else (cond,)
    for i, f in enumerate(parts):
        if f.op == "eq":
            li = smt.linear_in(f.args[0], va)
            if li and li[0] in (1, -1):
                g = -li[1] * li[0]
                rest = And(*[h for j, h in enumerate(parts) if j != i])
                return g, rest
    return None


def flat_ite(a, va):
    """ite(c, x * ite(d, y, 0), 0) = ite(c & d, x * y, 0) when c alone does not fix the index"""
    c, val = a.args[0], a.args[1]
    for _ in range(4):
        if len(val.t) != 1 or delta_solve(c, va) is not None:
            break
        (m, k), = val.t.items()
        b = [x for x, e in m if x.kind == "ite" and e == 1 and not x.args[2].t]
        if not b:
            break
        c = And(c, b[0].args[0])
        val = Poly.make({tuple(x for x in m if x[0] is not b[0]): k}) * b[0].args[1]
    return c, val


def round_bound(pc, f):
    """round(p) <= e and round(p) >= e follow from p <= e and p >= e for an integer e."""
    if f.op == "and":
        return all(ent(pc, g) or round_bound(pc, g) for g in f.args)
    if f.op not in ("le", "lt") or not any(a.kind == "round" for m in f.args[0].t for a, _ in m):
        return False
    p = f.args[0]
    if f.op == "lt":
        if not p.is_int:
            return False
        p = p + 1
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "round" and c in (1, -1):
            e = p - Poly.make({m: c})
            if e.is_int:
                q = m[0][0].args[0] * c + e
                if le_scaled(q, pc) or small(T.le(q, 0)) and ent(pc, T.le(q, 0)):
                    return True
    return False


def le_scaled(q, pc):
    """q <= 0 as a non-negative multiple of a hypothesis"""
    for h in pc:
        if h.op not in ("le", "lt"):
            continue
        F = h.args[0]
        for f0, c0 in F.t.items():
            rest = {a for m in F.t if m != f0 for a, _ in m} - {a for a, _ in f0}
            ks = {m: c for m, c in q.t.items() if not any(a in rest for a, _ in m)}
            if not ks or len(ks) * len(F.t) > 4 * len(q.t):
                continue
            k = Poly.make(ks) * T.inv(Poly.make({f0: c0}))
            if not (k * F - q).t:
                light = Pc(g for g in pc if small(g) and g.fv <= k.fv)
                if sign(k, light) in (1, 2):
                    return True
    return False


def small(h):
    if h.op == "not":
        h = h.args[0]
    return h.op in ("le", "lt", "eq") and h.args[0].is_real and len(h.args[0].t) < 8


def delta_arms(a, va):
    """arms [(condition, value)] of a nested ite whose non-zero arms all fix the index va, or None"""
    out = []

    def walk(c, p, depth):
        if not p.t:
            return True
        b = [x for m in p.t for x, e in m if x.kind == "ite" and e == 1] if len(p.t) == 1 else []
        if b and depth and (delta_solve(c, va) is None):
            k = subst_out(p, b[0])
            x, y = b[0].args[1], b[0].args[2]
            return walk(And(c, b[0].args[0]), k * x, depth - 1) and walk(And(c, Not(b[0].args[0])), k * y, depth - 1)
        if delta_solve(c, va) is None:
            return False
        out.append((c, p))
        return len(out) <= 6
    return out if walk(TRUE, a.poly, 6) and out else None


def subst_out(p, a):
    (m, k), = p.t.items()
    return Poly.make({tuple(x for x in m if x[0] is not a): k})


def sum_delta(n, v, body):
    """Sum over v<n of body where some monomials contain ite(v==g..., X, 0):
    returns the closed form for those monomials plus the rest, or None."""
    va = T.the_atom(v)
    done = ZERO
    rest = {}
    hit = False
    for m, c in body.t.items():
        ok = False
        for a, e in m:
            if a.kind == "ite" and e >= 1 and not a.args[2].t:
                cnd, inside = flat_ite(a, va)
                ds = delta_solve(cnd, va)
                if ds is not None:
                    g, rc = ds
                    other = Poly.make({tuple(x for x in m if x[0] is not a): c})
                    if e > 1:
                        other = other * T.ppow(inside, e - 1)
                    val = T.subst(other * inside, {va: g})
                    cond = And(T.ge(g, 0), T.lt(g, n), T.subst(rc, {va: g}))
                    done = done + T.ite(cond, val, ZERO)
                    ok = hit = True
                    break
            elif a.kind == "ite" and e == 1 and va in a.fv:
                arms = delta_arms(a, va)
                if arms:
                    other = Poly.make({tuple(x for x in m if x[0] is not a): c})
                    for cnd, val in arms:
                        g, rc = delta_solve(cnd, va)
                        cond = And(T.ge(g, 0), T.lt(g, n), T.subst(rc, {va: g}))
                        done = done + T.ite(cond, T.subst(other * val, {va: g}), ZERO)
                    ok = hit = True
                    break
        if not ok:
            rest[m] = c
    if not hit:
        return None
    r = Poly.make(rest)
    return done + (T.close_bind("sum", n, v, r) if r.t else ZERO)


def simplify_sums(p, pc, fuel):
    mp = {}
    for a in top_atoms(p):
        if a.kind == "bind" and a.args[0] == "sum":
            v = simp_sum(a, pc)
            if v is not None and v is not a.poly:
                mp[a] = v
    for a, v in mp.items():
        p = T.subst_atom(p, a, v)
    return p


def simp_sum(a, pc, depth=3):
    op, n, w, body, extra, cj = a.args
    if depth <= 0:
        return None
    v = T.fresh("s")
    va = T.the_atom(v)
    b = T.subst(body, {T.the_atom(w): v})
    r = sum_delta(n, v, b)
    if r is not None:
        return r
    q = real_dft_squares(b, pc.add(T.ge(v, 0), T.lt(v, n)))
    if q is not b:
        return T.close_bind("sum", n, v, q)
    q = merge_guards(b, pc.add(T.ge(v, 0), T.lt(v, n)))
    if q is not b:
        return T.close_bind("sum", n, v, q)
    # sum over k of dft(n, f, k+c) = n * f(0)
    r = sum_of_dft(n, v, b, pc)
    if r is not None:
        return r
    # Fubini: push the sum inside an inner sum whose length is free of v, if
    # that makes a delta go away
    out = ZERO
    hit = False
    rest = {}
    for m, c in b.t.items():
        inner = [x for x, e in m if x.kind == "bind" and x.args[0] == "sum" and e == 1 and va in x.fv]
        ok = False
        if len(inner) == 1 and va not in inner[0].args[1].fv:
            x = inner[0]
            other = Poly.make({tuple(y for y in m if y[0] is not x): c})
            u = T.fresh("s")
            ib = T.subst(x.args[3], {T.the_atom(x.args[2]): u}) * other
            d = sum_inner(n, v, ib, pc, depth)
            if d is not None:
                out = out + T.close_bind("sum", x.args[1], u, d)
                ok = hit = True
        if not ok:
            rest[m] = c
    if hit:
        r = Poly.make(rest)
        return out + (T.close_bind("sum", n, v, r) if r.t else ZERO)
    # case: sum over v of ite(cond free of v, X, Y)
    for m, c in b.t.items():
        for x, e in m:
            if x.kind == "ite" and e == 1 and va not in x.args[0].fv and va in x.fv:
                other = Poly.make({tuple(y for y in m if y[0] is not x): c})
                A = T.close_bind("sum", n, v, other * x.args[1])
                B_ = T.close_bind("sum", n, v, other * x.args[2])
                rr = b - Poly.make({m: c})
                return T.ite(x.args[0], A, B_) + (T.close_bind("sum", n, v, rr) if rr.t else ZERO)
    # inner sums, knowing the range of the index
    if any(z.kind == "bind" and z.args[0] == "sum" and va in z.fv for z in top_atoms(b)):
        q = simplify_sums(b, pc.add(T.ge(v, 0), T.lt(v, n)), 5)
        if q is not b:
            return T.close_bind("sum", n, v, q)
    # split a sum of several monomials when one of them simplifies
    if len(b.t) > 1:
        parts = ZERO
        hit = False
        keep = ZERO
        for m, c in b.t.items():
            q = T.close_bind("sum", n, v, Poly.make({m: c}))
            qa = None
            for z in top_atoms(q):
                if z.kind == "bind" and z.args[0] == "sum" and z is not a:
                    s = simp_sum(z, pc, depth - 1)
                    if s is not None and s is not z.poly:
                        q = T.subst_atom(q, z, s)
                        hit = True
            parts = parts + q
        if hit:
            return parts
    return None


def merge_guards(b, pc):
    """Drop the literals of top-level guards ite(c, x, 0) that pc entails, and
    merge ite(c, x, 0) + ite(not c, x, 0) into x."""
    arms = []
    rest = {}
    changed = False
    for m, k in b.t.items():
        xs = [(x, e) for x, e in m if x.kind == "ite" and e >= 1 and not x.args[2].t]
        if len(xs) != 1:
            rest[m] = k
            continue
        x, e = xs[0]
        c = x.args[0]
        parts = c.args if c.op == "and" else (c,)
        keep = [f for f in parts if not ent(pc, f)]
        changed = changed or len(keep) < len(parts)
        c2 = And(*keep)
        val, _ = resolve_top(x.args[1], pc.add(c2))
        changed = changed or val is not x.args[1]
        val = T.ppow(val, e) * Poly.make({tuple(y for y in m if y[0] is not x): k})
        for i, (d, w) in enumerate(arms):
            if w is val and (Not(d) is c2 or Not(c2) is d):
                arms[i] = (TRUE, val)
                changed = True
                break
        else:
            arms.append((c2, val))
    if not changed:
        return b
    out = Poly.make(rest)
    for c, val in arms:
        out = out + T.ite(c, val, ZERO)
    return out


def canon_sums(p, pc, depth=2, bounds=True):
    """Bring the sums of p to bounds without a constant part and to index offsets starting at zero:
    sum_{i<n+c} f(i+s) = sum_{i<n} f(i) plus or minus the terms at the two ends."""
    mp = {}
    for a in top_atoms(p):
        if a.kind != "bind" or a.args[0] != "sum":
            continue
        op, n, w, body, extra, cj = a.args
        v = T.fresh("s")
        va = T.the_atom(v)
        b = T.subst(body, {T.the_atom(w): v})
        if depth > 1:
            b = canon_sums(b, pc.add(T.ge(v, 0), T.lt(v, n)), depth - 1, bounds)
        if any(x.kind == "ite" for x in top_atoms(b)):
            b = indicators(b)
        cn = n.t.get((), 0)
        base = n - cn
        if not base.t:
            base, cn = n, 0
        groups = {}
        for m, k in b.t.items():
            q = Poly.make({m: k})
            s = min_offset(q, va)
            groups.setdefault(s, []).append(q)
        if not bounds or (set(groups) == {0} and not cn):
            if b is not T.subst(body, {T.the_atom(w): v}):
                mp[a] = T.close_bind("sum", n, v, b)
            continue
        if not ent(pc, And(T.ge(base, 0), T.ge(n, 0), *[T.ge(n + s, 0) for s in groups])):
            continue
        tot, ends = ZERO, ZERO
        for s, qs in groups.items():
            f = ZERO
            for q in qs:
                f = f + q
            if s:
                f = T.subst(f, {va: v - s})
            tot = tot + f
            e = int(cn) + s            # the range is s .. base+e-1

            def at(t):
                return T.subst(f, {va: P(t)})
            if abs(e) > 4:
                break
            for j in range(e):
                ends = ends + at(base + j)
            for j in range(e, 0):
                ends = ends - at(base + j)
            for j in range(s):
                ends = ends - at(P(j))
            for j in range(s, 0):
                ends = ends + at(P(j))
        else:
            r = T.close_bind("sum", base, v, tot) + ends
            mp[a] = T.conj(r) if cj else r
    for a, q in mp.items():
        p = T.subst_atom(p, a, q)
    return p


def flipped(c):
    """Is Not(c) the one of the pair that is written?  (a choice independent of the names of bound variables)"""
    if c.op in ("not", "or"):
        return True
    if c.op != "le":
        return False
    ms = [m for m in c.args[0].t if m]
    if not ms:
        return False

    def key(m):
        bad = any(v.args[0].startswith("@") or "!" in v.args[0] for a, _ in m for v in a.fv if v.kind == "var")
        return bad, T.show(Poly.make({m: 1})) if not bad else ""
    return c.args[0].t[min(ms, key=key)] < 0


def indicators(b, lim=80):
    """b with every top-level ite(c, x, y) written as y + (x - y) * [c], [c] in one orientation, [c]^k = [c]."""
    for _ in range(6):
        mp = {}
        for a in top_atoms(b):
            if a.kind != "ite":
                continue
            c, x, y = a.args
            if flipped(c):
                c, x, y = Not(c), y, x
            J = T.ite(c, ONE, ZERO)
            if J is not a.poly:
                mp[a] = y + (x - y) * J
        for a, q in mp.items():
            b = T.subst_atom(b, a, q)
            if len(b.t) > lim:
                return b
        out = ZERO
        ch = bool(mp)
        for m, k in b.t.items():
            if any(x.kind == "ite" and e > 1 for x, e in m):
                m = tuple((x, 1 if x.kind == "ite" and e > 1 and x.args[1] is ONE and not x.args[2].t else e) for x, e in m)
                ch = True
            out = out + Poly.make({m: k})
        b = out
        if not ch:
            break
    return b


def min_offset(q, va):
    """Least constant c of the element reads at v + c in q (0 when there is none)."""
    offs = []

    def pred(x):
        if getattr(x, "kind", None) in ("elem", None) and isinstance(x.args[1] if len(x.args) > 1 else None, tuple):
            for r in x.args[1]:
                li = smt.linear_in(r, va) if va in r.fv else None
                if li and li[0] == 1:
                    c = li[1].t.get((), 0)
                    if int(c) == c:
                        offs.append(int(c))
        return False
    T.contains_kind(q, pred)
    m = min(offs) if offs else 0
    return m if abs(m) <= 3 else 0


def expand_sums(p, pc, lim=12, deep=1):
    """Distribute the top-level sums over the monomials of their bodies, taking
    the factors free of the bound variable out."""
    mp = {}
    for a in top_atoms(p):
        if a.kind == "bind" and a.args[0] == "sum" and deep > 1 and not a.args[5]:
            op, n, w, body, extra, cj = a.args
            v = T.fresh("s")
            b = expand_sums(T.subst(body, {T.the_atom(w): v}), pc.add(T.ge(v, 0), T.lt(v, n)), lim, deep - 1)
            q = T.close_bind("sum", n, v, b)
            x = T.the_atom(q)
            if x is None or x.kind != "bind":
                mp[a] = q
                continue
            q = expand_sums(q, pc, lim)
            if q is not a.poly:
                mp[a] = q
            continue
        if a.kind == "bind" and a.args[0] == "sum" and 1 < len(a.args[3].t) <= lim and not a.args[5]:
            op, n, w, body, extra, cj = a.args
            wa = T.the_atom(w)
            if not any(wa not in x.fv for m in body.t for x, e in m) and all(any(wa in x.fv for x, e in m)
                                                                             for m in body.t):
                continue
            if not ent(pc, T.ge(n, 0)):
                continue
            v = T.fresh("s")
            va = T.the_atom(v)
            q = ZERO
            for m, c in T.subst(body, {wa: v}).t.items():
                inner = tuple(x for x in m if va in x[0].fv)
                outer = Poly.make({tuple(x for x in m if va not in x[0].fv): c})
                q = q + outer * (T.close_bind("sum", n, v, Poly.make({inner: 1})) if inner else n)
            mp[a] = q
    for a, q in mp.items():
        p = T.subst_atom(p, a, q)
    return p


def sum_inner(n, v, ib, pc, depth):
    """Sum over v<n of ib, if it simplifies (delta elimination)."""
    r = sum_delta(n, v, ib)
    if r is not None:
        return r
    q = T.close_bind("sum", n, v, ib)
    a = T.the_atom(q)
    if a is not None and a.kind == "bind" and depth > 1:
        return simp_sum(a, pc, depth - 1)
    hit = False
    for z in top_atoms(q):
        if z.kind == "bind" and z.args[0] == "sum":
            s = simp_sum(z, pc, depth - 1)
            if s is not None and s is not z.poly:
                q = T.subst_atom(q, z, s)
                hit = True
    return q if hit else None


def sum_of_dft(n, v, b, pc):
    va = T.the_atom(v)
    out = ZERO
    hit = False
    rest = {}
    for m, c in b.t.items():
        ok = False
        dep = [(x, e) for x, e in m if va in x.fv]
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0].kind == "bind" and dep[0][0].args[0] == "dft":
            x = dep[0][0]
            op, n2, w, body, extra, cj = x.args
            li = smt.linear_in(extra[0], va)
            if n2 is n and li and li[0] in (1, -1) and va not in body.fv and li[1].is_int:
                f0 = T.subst(body, {T.the_atom(w): ZERO})
                if cj:
                    f0 = T.conj(f0)
                other = Poly.make({tuple(y for y in m if y[0] is not x): c})
                out = out + other * n * f0
                hit = ok = True
        # Parseval: dft * conj(dft)
        if not ok and len(dep) == 2:
            (x, e1), (y, e2) = dep
            if e1 == e2 == 1 and x.kind == y.kind == "bind" and x.args[0] == y.args[0] == "dft" \
                    and x.args[:5] == y.args[:5] and x.args[5] != y.args[5]:
                op, n2, w, body, extra, cj = x.args
                li = smt.linear_in(extra[0], va)
                if n2 is n and li and li[0] in (1, -1) and va not in body.fv and li[1].is_int:
                    u = T.fresh("s")
                    f = T.subst(body, {T.the_atom(w): u})
                    other = Poly.make({tuple(z for z in m if va not in z[0].fv): c})
                    out = out + other * n * T.close_bind("sum", n, u, f * T.conj(f))
                    hit = ok = True
        if not ok:
            rest[m] = c
    if not hit:
        return None
    r = Poly.make(rest)
    return out + (T.close_bind("sum", n, v, r) if r.t else ZERO)


def sums_cancel(p, pc, fuel):
    """p = sum_j C_j * S_j + R: write everything as one sum over the integer
    line and prove the summand zero pointwise."""
    if fuel < 6:
        return False
    atoms = [a for a in top_atoms(p) if a.kind == "bind" and a.args[0] == "sum"]
    if not atoms or len(atoms) > 6:
        return False
    ids = {a.id for a in atoms}
    terms = []
    R = ZERO
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if a.id in ids]
        if not ss:
            R = R + Poly.make({m: c})
            continue
        if len(ss) > 1 or ss[0][1] != 1:
            return sums_cancel_products(p, pc, fuel)
        terms.append((ss[0][0], Poly.make({tuple(x for x in m if x[0].id not in ids): c})))
    by = {}
    for a, C in terms:
        by[a] = by.get(a, ZERO) + C
    # partial sums of one body: peel the last terms of the longer one
    keys = list(by)
    for i, a in enumerate(keys):
        for b in keys[:i]:
            d = (a.args[1] - b.args[1]).const()
            if d is None or d == 0 or abs(d) > 4 or int(d) != d:
                continue
            if d < 0:
                a, b, d = b, a, -d
            if T.subst(a.args[3], {T.the_atom(a.args[2]): b.args[2]}) is not b.args[3]:
                continue
            n = b.args[1]
            if not ent(pc, T.ge(n, 0)):
                continue
            q = b.poly
            for j in range(int(d)):
                q = q + T.subst(b.args[3], {T.the_atom(b.args[2]): n + j})
            return eq0(T.subst_atom(p, a, q), pc, fuel - 1)
    items = list(by.items())
    if len(items) == 1 and not R.t:
        a, C = items[0]
        op, n, w, body, extra, cj = a.args
        v = T.fresh("p")
        b = T.subst(body, {T.the_atom(w): v})
        if eq0(b * C, pc.add(T.ge(v, 0), T.lt(v, n)), fuel - 2):
            return True
        return sums_reflect_self(C, n, v, b, pc, fuel)
    v = T.fresh("p")
    va = T.the_atom(v)
    a0, C0 = items[0]
    n0, w0, b0 = a0.args[1], a0.args[2], a0.args[3]
    body0 = T.subst(b0, {T.the_atom(w0): v})
    opts = []
    for a, C in items[1:]:
        n, w, b = a.args[1:4]
        cands = align(body0, v, b, w)
        opts.append((a, C, cands[:6]))
    if R.t:
        return False

    def rec(i, F, dom):
        if i == len(opts):
            return eq0(F, pc.add(dom), fuel - 4)
        a, C, cands = opts[i]
        n, w, b = a.args[1:4]
        for phi in cands:
            inside = And(T.ge(phi, 0), T.lt(phi, n))
            F2 = F + T.ite(inside, C * T.subst(b, {T.the_atom(w): phi}), ZERO)
            if rec(i + 1, F2, Or(dom, inside)):
                return True
        return False
    in0 = And(T.ge(v, 0), T.lt(v, n0))
    return rec(0, T.ite(in0, C0 * body0, ZERO), in0)


def dfts_cancel(p, pc, fuel):
    """p = sum_j C_j * dft{n;k}(f_j) (some conjugated): one transform of the
    combination; conj(dft f)(k) = dft of conj f at the reflected index."""
    if fuel < 6:
        return False
    atoms = [a for a in top_atoms(p) if a.kind == "bind" and a.args[0] == "dft"]
    if len(atoms) < 2 or len(atoms) > 8:
        return False
    n, k = atoms[0].args[1], atoms[0].args[4][0]
    for a in atoms[1:]:
        if a.args[1] is not n or a.args[4][0] is not k:
            return False
    ids = {a.id for a in atoms}
    by = {}
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if a.id in ids]
        if len(ss) != 1 or ss[0][1] != 1:
            return False
        C = Poly.make({tuple(x for x in m if x[0].id not in ids): c})
        by[ss[0][0]] = by.get(ss[0][0], ZERO) + C
    if not any(a.args[5] for a in by) and len(by) < 3:
        x, y = list(by.values())
        if not (x + y).t:
            return False
    v = T.fresh("p")
    for case in (0, 1):
        pc2 = pc.add(T.eq(v, 0), T.ge(n, 1)) if case == 0 else pc.add(T.ge(v, 1), T.lt(v, n))
        tot = ZERO
        for a, C in by.items():
            w = T.the_atom(a.args[2])
            if a.args[5]:
                ix = ZERO if case == 0 else n - v
                tot = tot + C * T.conj(T.subst(a.args[3], {w: ix}))
            else:
                tot = tot + C * T.subst(a.args[3], {w: ZERO if case == 0 else v})
        if not eq0(tot, pc2, fuel - 3):
            return False
    return True


def real_dfts(p, pc, fuel):
    """Replace conj(D) by D for transforms D of sequences with f(n-m) = conj f(m)."""
    if fuel < 10:
        return p
    at = {a for a in top_atoms(p) if a.kind == "bind" and a.args[0] == "dft"}
    for a in sorted(at, key=lambda x: x.id):
        if a.args[5] or len(p.t) < 2:
            continue
        c = T.conj(a.poly)
        ca = T.the_atom(c)
        if ca is not None and ca in at and ca is not a and dfts_cancel(a.poly - c, pc, 12):
            p = T.subst_atom(p, ca, a.poly)
    return p


def real_dft_squares(p, pc):
    """D^2 and conj(D)^2 -> D*conj(D) for real transforms D."""
    for m in p.t:
        for a, e in m:
            if e == 2 and a.kind == "bind" and a.args[0] == "dft":
                c = T.conj(a.poly)
                if T.the_atom(c) is a or not dfts_cancel(a.poly - c, pc, 12):
                    continue
                ca = T.the_atom(c)
                out = ZERO
                for m2, k in p.t.items():
                    d = dict(m2)
                    e2 = d.get(a, 0) + d.get(ca, 0)
                    if e2 < 2:
                        out = out + Poly.make({m2: k})
                        continue
                    rest = Poly.make({tuple(x for x in m2 if x[0] is not a and x[0] is not ca): k})
                    for _ in range(e2 // 2):
                        rest = rest * a.poly * c
                    out = out + (rest * a.poly if e2 % 2 else rest)
                return out
    return p


def sums_reflect_self(C, n, v, b, pc, fuel):
    va = T.the_atom(v)
    refl = T.subst(b, {va: n - 1 - v})
    return fuel > 8 and eq0((b + refl) * C, pc.add(T.ge(v, 0), T.lt(v, n)), fuel - 8)


def sums_cancel_products(p, pc, fuel):
    return False


def align(body0, v, b, w):
    """Candidate substitutions w -> phi(v) making elements of b line up with body0."""
    va, wa = T.the_atom(v), T.the_atom(w)
    out = {v.id: v}

    def idxs(x, a):
        res = []
        for y in T.sub_atoms(x):
            if y.kind == "elem":
                for pos, i in enumerate(y.args[1]):
                    li = smt.linear_in(i, a)
                    if li and li[0] in (1, -1):
                        res.append((y.args[0], pos, li))
            elif y.kind in ("cis", "exp", "floor"):
                pass
        return res
    for (r0, p0, l0) in idxs(body0, va):
        for (r1, p1, l1) in idxs(b, wa):
            if r0 == r1 and p0 == p1:
                # l1c*w + l1r = l0c*v + l0r
                phi = (v * l0[0] + l0[1] - l1[1]) * l1[0]
                out[phi.id] = phi
    return list(out.values())


# ------------------------------------------------------------------ formulas
def prove(goal, pc, budget=60.0):
    """Prove pc => goal.  Returns Res."""
    t_end = time.time() + budget
    old = _deadline[0]
    _deadline[0] = t_end if old is None else min(old, t_end)
    try:
        pc = skolem(Pc(()).add(*pc))
        if any(f is FALSE for f in pc):
            return Res("proved")
        goal, pc = parities(goal, pc)
        hv = unknown_parity(goal, pc)
        if not hv or budget < 16:
            return _prove(goal, pc, 0)
        # a first attempt, then by the parity of a halved size, then the rest of the budget
        full = _deadline[0]
        _deadline[0] = min(full, time.time() + 8.0)
        try:
            r = _prove(goal, pc, 0)
        except Budget:
            r = Res("unknown", None, "time budget exhausted")
        if r.status == "proved":
            return r
        spent = r.why.startswith("time")
        _deadline[0] = full - (full - time.time()) / 2
        even = T.eq0(T.mod(hv[0], 2))
        try:
            for c in (even, Not(even)):
                pc2 = skolem(pc.add(c))
                if ent(pc2, FALSE):
                    continue
                g2, pc2 = parities(goal, pc2)
                if not _prove(g2, pc2, 0):
                    break
            else:
                return Res("proved")
        except Budget:
            pass
        _deadline[0] = full
        return _prove(goal, pc, 0) if spent else r
    except Budget:
        return Res("unknown", None, "time budget exhausted")
    except T.TermBlowup:
        return Res("unknown", None, "term size limit")
    except RecursionError:
        return Res("unknown", None, "recursion limit")
    finally:
        _deadline[0] = old


def halves(goal):
    halved = {}

    def collect(a):
        if getattr(a, "kind", "") == "floor":
            for m, c in a.args[0].t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and Fraction(c).denominator == 2:
                    halved[m[0][0].poly] = True
        return False
    T.contains_kind(goal, collect)
    return list(halved)


def unknown_parity(goal, pc):
    if not hard(goal) or not T.contains_kind(goal, lambda a: getattr(a, "kind", "") == "bind"):
        return []
    out = []
    for v in halves(goal):
        even = T.eq0(T.mod(v, 2))
        if not any(f is even or f is Not(even) for f in pc):
            out.append(v)
    return out


def parities(goal, pc):
    """v of known parity and halved in the goal: v = 2w or v = 2w + 1 for some integer w"""
    if not hard(goal) or not T.contains_kind(goal, lambda a: getattr(a, "kind", "") == "bind"):
        return goal, pc
    halved = {}

    def collect(a):
        if getattr(a, "kind", "") == "floor":
            for m, c in a.args[0].t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and Fraction(c).denominator == 2:
                    halved[m[0][0].poly] = True
        return False
    T.contains_kind(goal, collect)
    for v in halved:
        even = T.eq0(T.mod(v, 2))
        r = 0 if any(f is even for f in pc) else 1 if any(f is Not(even) for f in pc) else None
        if r is None:
            continue
        sub = {T.the_atom(v): 2 * T.fresh("h") + r}
        goal, pc = T.subst(goal, sub), Pc(()).add(*[T.subst(f, sub) for f in pc])
    return goal, pc


def skolem(pc):
    out = []
    for f in pc:
        if f.op == "not" and f.args[0].op == "forall":
            v, body = f.args[0].args
            w = T.fresh("sk")
            g = Not(T.subst(body, {T.the_atom(v): w}))
            out += list(skolem(Pc(()).add(g)))
        else:
            out.append(f)
    return Pc(()).add(*out)


def log_of(p, pc):
    """log(p) over the factors of p and the exponents of its powers, all known to be positive; None if they are not"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c <= 0 or not m:
        return None
    r = T.log(T.const(c)) if c != 1 else ZERO
    for a, e in m:
        if not a.real or e != int(e) or not ent(pc, T.gt(a.poly, 0)):
            return None
        if a.kind == "pow" and ent(pc, T.gt(a.args[0], 0)):
            r = r + e * a.args[1] * logx(a.args[0], pc)
        else:
            r = r + e * T.log(a.poly)
    return r


def logx(p, pc):
    v = log_of(p, pc)
    return T.log(p) if v is None else v


def explog(p, pc):
    """p with logarithms of products, powers and exponentials of sums of logarithms written out"""
    m = {}
    for a in T.sub_atoms(p):
        if a.kind == "log":
            v = log_of(a.args[0], pc)
            if v is not None and v is not a.poly:
                m[a] = v
        elif a.kind == "pow" and a.real and a.args[0].is_real and a.args[1].is_real and ent(pc, T.gt(a.args[0], 0)):
            m[a] = T.exp(a.args[1] * logx(a.args[0], pc))
    if m:
        p = T.subst(p, m)
    for _ in range(4):
        m = {}
        for a in T.sub_atoms(p):
            if a.kind != "exp":
                continue
            for t, c in a.args[0].t.items():
                if len(t) == 1 and t[0][0].kind == "log" and t[0][1] == 1 and c == int(c):
                    m[a] = T.ppow(t[0][0].args[0], T.const(c)) * T.exp(a.args[0] - T.const(c) * t[0][0].poly)
                    break
        if not m:
            break
        p = T.subst(p, m)
    return p


def _prove(goal, pc, depth):
    _tick()
    if goal is TRUE:
        return Res("proved")
    if any(f is goal for f in pc):
        return Res("proved")
    op = goal.op
    if op == "and":
        worst = Res("proved")
        for g in goal.args:
            r = _prove(g, pc, depth + 1)
            if not r:
                if r.status == "refuted":
                    return r
                worst = r
        return worst
    if op == "forall":
        v, body = goal.args
        w = T.fresh("a")
        return _prove(T.subst(body, {T.the_atom(v): w}), pc, depth + 1)
    if op == "or":
        args = list(goal.args)
        simple = [g for g in args if not hard(g)]
        rest = [g for g in args if hard(g)]
        if not rest:
            return leaf(goal, pc)
        if len(simple) != len(args):
            pc2 = skolem(pc.add(*[Not(g) for g in simple]))
            if ent(pc2, FALSE):
                return Res("proved")
        else:
            pc2 = pc
        r = Res("unknown")
        for i, g in enumerate(rest):
            others = [Not(h) for j, h in enumerate(rest) if j != i]
            r = _prove(g, skolem(pc2.add(*others)), depth + 1)
            if r:
                return r
        return r
    if op == "not" and goal.args[0].op == "forall":
        v, body = goal.args[0].args
        cands = smt.int_terms(list(pc) + [goal]) + [ZERO]
        for t in cands[:20]:
            r = _prove(Not(T.subst(body, {T.the_atom(v): t})), pc, depth + 1)
            if r:
                return r
        return Res("unknown", None, "no witness")
    if op == "eq":
        p = goal.args[0]
        if p.is_int and not T.contains_kind(p, lambda a: getattr(a, "kind", "") == "bind"):
            r = leaf(goal, pc)
            if r or r.status == "refuted":
                return r
        if eq0(p, pc):
            return Res("proved")
        q = explog(p, pc)
        if q is not p and eq0(q, pc):
            return Res("proved")
        return Res("unknown", None, "equality not established")
    if op in ("le", "lt"):
        p = goal.args[0]
        if hard(goal):
            s = sign(-p, pc) if p.is_real else sign(-T.re(p), pc)
            if s == 2 or (s == 1 and op == "le"):
                return Res("proved")
            q = norm_ineq(p, pc)
            if q is not p:
                return _prove(T.le0(q) if op == "le" else T.lt0(q), pc, depth + 1)
        return leaf(goal, pc)
    if op == "not" and goal.args[0].op == "eq":
        p = goal.args[0].args[0]
        if nonzero(p, pc):
            return Res("proved")
        if depth < 12:
            q = clear_denoms(p, pc, 20)
            if q is not None and q is not p:
                r = _prove(T.Not(T.eq0(q)), pc, depth + 4)
                if r:
                    return r
            q, und = resolve_top(p, pc)
            q = unify(resolve_arith(q, pc), pc, 20, False)
            if q is not p:
                r = _prove(T.Not(T.eq0(q)), pc, depth + 4)
                if r:
                    return r
    return leaf(goal, pc)


def norm_ineq(p, pc):
    q, und = resolve_top(p, pc)
    q = resolve_arith(q, pc)
    return q


def hard(g):
    if g.op in ("forall",):
        return True
    if g.op in ("and", "or", "not"):
        return any(hard(x) for x in g.args)
    if g.op in ("eq", "le", "lt"):
        p = g.args[0]
        return (not p.is_real) or T.contains_kind(
            p, lambda a: getattr(a, "kind", "") in ("bind", "cis", "elem", "exp", "inv", "sqrt", "abs", "fn:hamming", "pow", "log", "fn:arccos") and
            not (a.kind in ("elem", "abs") and a.sort == "int"))
    return False


def leaf(goal, pc):
    if goal.op in ("le", "lt") and round_bound(pc, goal):
        return Res("proved")
    r = smt.entails(pc, goal, want_model=True)
    if r is True:
        return Res("proved")
    if r is False:
        return Res("refuted", smt.entails.last_model, "counter-model")
    return Res("unknown", None, "solver unknown")
