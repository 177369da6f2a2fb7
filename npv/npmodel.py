"""Semantics of the numpy / scipy / builtin operations used by the code under
verification, over symbolic arrays of unbounded size.

These are the assumed contracts of the libraries: every entry states what the
library function returns (mathematically, floating point treated as real
arithmetic) and which of its preconditions become proof obligations."""
from fractions import Fraction
from . import terms as T
from . import smt
from . import prove as PR
from .terms import P, Poly, Formula, TRUE, FALSE, And, Or, Not
from .interp import (Sc, Arr, Ref, Lst, Obj, ObjVal, Poison, FuncVal, BoundMethod, ClassVal, ModVal,
                     Ext, ExtMethod, Opaque, SliceVal, Masked, DictVal, ELLIPSIS, RangeVal, EnumVal,
                     ZipVal, RevVal, Unsupported, RaiseEx, IDX, at, kmax, as_num, as_bool, sc,
                     KORD, prod, BUILTIN_EXC)

USED = set()           # library contracts used in this run

ALIAS = {
    "numpy.absolute": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.conjugate": "numpy.conj", "numpy.around": "numpy.round", "numpy.round_": "numpy.round",
    "numpy.mod": "numpy.remainder", "numpy.ascontiguousarray": "numpy.asarray",
    "numpy.asanyarray": "numpy.asarray", "scipy.signal.windows.hamming": "scipy.signal.hamming",
    "numpy.multiply": "numpy.multiply", "numpy.fix": "numpy.trunc",
    "scipy.fft.fft": "numpy.fft.fft", "scipy.fft.ifft": "numpy.fft.ifft",
    "scipy.fftpack.fft": "numpy.fft.fft", "math.fabs": "numpy.abs",
    "numpy.concat": "numpy.concatenate",
}
INF = T.var("np.inf", "real")        # opaque: stored and tested only, never used in arithmetic (see finite)
INF_ATOM = T.the_atom(INF)
CONSTS = {
    "numpy.inf": lambda: Sc(INF, "f", True), "math.inf": lambda: Sc(INF, "f", True),
    "numpy.pi": lambda: Sc(T.PI, "f"), "math.pi": lambda: Sc(T.PI, "f", True),
    "numpy.newaxis": lambda: None,
    "numpy.e": lambda: Sc(T.exp(T.ONE), "f"), "math.e": lambda: Sc(T.exp(T.ONE), "f", True),
}
OPAQUE_MODS = ("matplotlib", "mpl_toolkits")


def resolve_ext(I, name):
    name = ALIAS.get(name, name)
    if name in CONSTS:
        return CONSTS[name]()
    if name.startswith(OPAQUE_MODS):
        return Ext(name)
    return Ext(name)


# ------------------------------------------------------------------ helpers
def lift(I, v):
    """Value -> Sc | Arr | Masked"""
    if isinstance(v, (Sc, Arr, Masked)):
        return v
    if isinstance(v, (bool, int, float, complex, Fraction)):
        return sc(v)
    if isinstance(v, Lst):
        return from_list(I, I.get(v))
    if isinstance(v, tuple):
        return from_list(I, v)
    if isinstance(v, Ref):
        return I.get(v)
    if isinstance(v, RangeVal):
        return Arr((v.n,), "i", v.start + v.step * IDX(0))
    if isinstance(v, Opaque) and v.tag == "array":
        raise Unsupported("opaque array")
    raise Unsupported("numeric use of %s" % type(v).__name__)


def from_list(I, items):
    vs = [lift(I, x) for x in items]
    if not vs:
        return Arr((0,), "f", T.ZERO)
    if all(isinstance(x, Sc) for x in vs):
        k = kmax(*[x.k for x in vs])
        if k == "b":
            body = vs[-1].v
            for i in range(len(vs) - 2, -1, -1):
                body = T.fite(T.eq(IDX(0), i), vs[i].v, body)
            return Arr((len(vs),), k, body)
        body = as_num(vs[-1].v, 0)
        for i in range(len(vs) - 2, -1, -1):
            body = T.ite(T.eq(IDX(0), i), as_num(vs[i].v, 0), body)
        return Arr((len(vs),), k, body)
    if all(isinstance(x, Arr) for x in vs):
        nd = vs[0].ndim
        if any(x.ndim != nd for x in vs):
            raise RaiseEx("ValueError", "ragged array")
        for x in vs[1:]:
            for a, b in zip(vs[0].shape, x.shape):
                I.oblige(T.eq(a, b), "stacked arrays have equal shapes", "ValueError")
        k = kmax(*[x.k for x in vs])
        sub = [at_num(x, [IDX(j + 1) for j in range(nd)]) for x in vs]
        body = sub[-1]
        for i in range(len(vs) - 2, -1, -1):
            body = T.ite(T.eq(IDX(0), i), sub[i], body)
        if k == "b":
            k = "i"
        return Arr((len(vs),) + tuple(vs[0].shape), k, body)
    raise Unsupported("mixed list to array")


def at_num(a, idx):
    return as_num(at(a, idx), a.k)


def ret(I, v):
    """Sc stays, Arr becomes a new cell (0-d arrays become scalars)."""
    if isinstance(v, Arr):
        if v.ndim == 0:
            return Sc(v.body, v.k)
        return I.mk(v)
    return v


def is_arr(v):
    return type(v) is Ref or isinstance(v, (Arr, Lst, tuple))


def inrange(shape, idx=None):
    idx = idx or [IDX(i) for i in range(len(shape))]
    return [f for x, s in zip(idx, shape) for f in (T.ge(x, 0), T.lt(x, s))]


def oblige_all(I, shape, f, what, exc=None):
    """Obligation: f holds for all indices in the shape."""
    if f is TRUE or I.quiet:
        return
    m = {}
    hyp = []
    for i, s in enumerate(shape):
        v = T.fresh("q")
        m[T.the_atom(IDX(i))] = v
        hyp += [T.ge(v, 0), T.lt(v, s)]
    f = T.subst(f, m)
    if f is TRUE:
        return
    if I.oblige_cb is not None:
        I.oblige_cb(f, list(I.pc) + hyp, what, I.where, exc)


def ent_all(I, shape, f):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    m = {}
    hyp = []
    for i, s in enumerate(shape):
        v = T.var("q#%d" % i)
        m[T.the_atom(IDX(i))] = v
        hyp += [T.ge(v, 0), T.lt(v, s)]
    return smt.entails(list(I.pc) + hyp, T.subst(f, m)) is True


def max0(I, e):
    e = P(e)
    if I.ent(T.ge(e, 0)):
        return e
    if I.ent(T.le(e, 0)):
        return T.ZERO
    return T.pmax(0, e)


def need_int(v, what, exc="TypeError"):
    if isinstance(v, bool):
        v = sc(v)
    if isinstance(v, int):
        return P(v)
    if isinstance(v, Sc):
        if v.k == "b":
            return as_num(v.v, "b")
        if v.k != "i":
            raise RaiseEx(exc, what + ": not an integer")
        return v.v
    if isinstance(v, Poly):
        return v
    raise RaiseEx(exc, what)


def broadcast(I, vals):
    """(shape, [fn(out idx list) -> value body]) of Sc/Arr values."""
    nd = max([v.ndim if isinstance(v, Arr) else 0 for v in vals] + [0])
    shape = []
    use = [[] for _ in vals]
    for d in range(nd):
        dim = T.ONE
        for v in vals:
            if not isinstance(v, Arr):
                continue
            p = d - (nd - v.ndim)
            if p < 0:
                continue
            s = v.shape[p]
            if s.const() == 1:
                continue
            if dim.const() == 1:
                dim = s
            elif dim is not s:
                I.oblige(T.eq(dim, s), "operands have matching shapes", "ValueError")
        shape.append(dim)
    fns = []
    for v in vals:
        if isinstance(v, Sc):
            fns.append(lambda ix, v=v: v.v)
            continue

        def f(ix, v=v):
            off = len(ix) - v.ndim
            return at(v, [T.ZERO if v.shape[p].const() == 1 else ix[p + off] for p in range(v.ndim)])
        fns.append(f)
    return shape, fns


def finite(vals):
    """arithmetic on values that may be infinite is refused (a constant multiple of infinity is kept as a mark)"""
    bs = [v.v if isinstance(v, Sc) else v.body for v in vals]
    bs = [b for b in bs if isinstance(getattr(b, "fv", None), frozenset)]
    if any(INF_ATOM in b.fv for b in bs) and not all(
            isinstance(v, Sc) and not (getattr(v.v, "fv", frozenset()) - {INF_ATOM}) for v in vals):
        raise Unsupported("arithmetic on infinity")


def emap(I, fn, kfn, *vals):
    """Elementwise application with broadcasting (numeric bodies)."""
    vals = [lift(I, v) for v in vals]
    finite(vals)
    k = kfn(*[v.k for v in vals])
    if any(isinstance(v, Masked) for v in vals):
        ms = [v for v in vals if isinstance(v, Masked)]
        for v in vals:
            if isinstance(v, Arr) or (isinstance(v, Masked) and v.mask is not ms[0].mask):
                raise Unsupported("masked selection combined with another array")
        return Masked(ms[0].shape, k, fn(*[as_num(v.v if isinstance(v, Sc) else v.body, v.k) for v in vals]),
                      ms[0].mask)
    if all(isinstance(v, Sc) for v in vals):
        py = all(v.py for v in vals)
        return Sc(fn(*[as_num(v.v, v.k) for v in vals]), k, py)
    shape, fns = broadcast(I, vals)
    ix = [IDX(i) for i in range(len(shape))]
    body = fn(*[as_num(f(ix), v.k) for f, v in zip(fns, vals)])
    return Arr(shape, k, body)


def unary(I, v, fn, kfn):
    return ret(I, emap(I, fn, kfn, v))


def invert(I, v):
    a = lift(I, v)
    if a.k != "b":
        raise Unsupported("~ of a non-boolean")
    if isinstance(a, Sc):
        if a.py:
            raise Unsupported("~ of a python bool")
        return Sc(Not(a.v), "b")
    return I.mk(Arr(a.shape, "b", Not(a.body)))


def cast_body(I, a, k):
    """Body of array/scalar a cast to kind k (C-style)."""
    b = a.v if isinstance(a, Sc) else a.body
    if a.k == k:
        return b
    if k == "b":
        return as_bool(b, a.k)
    b = as_num(b, a.k)
    if k == "i" and a.k in ("f", "c"):
        if a.k == "c":
            b = T.re(b)
        return T.trunc(b)
    if k == "f" and a.k == "c":
        return T.re(b)
    return b


def nz_oblige(I, v, what, num=None):
    """Divisor is never zero (a scalar divisor of an empty array is never used)."""
    a = lift(I, v)
    if isinstance(a, Sc):
        f = Not(T.eq0(as_num(a.v, a.k)))
        x = lift(I, num) if isinstance(num, Ref) else None
        if isinstance(x, Arr):
            f = Or(f, *[T.le(s, 0) for s in x.shape])
        I.oblige(f, what, "ZeroDivisionError")
    elif isinstance(a, Arr):
        oblige_all(I, a.shape, Not(T.eq0(as_num(a.body, a.k))), what, "ZeroDivisionError")
    elif isinstance(a, Masked):
        oblige_all(I, a.shape, Or(Not(a.mask), Not(T.eq0(a.body))), what, "ZeroDivisionError")


def binop(I, op, a, b):
    for v in (a, b):
        if isinstance(v, (str, type(None), DictVal, FuncVal, ClassVal)):
            raise RaiseEx("TypeError", "operand of %s at %s" % (op, I.where))
        if isinstance(v, Opaque):
            raise Unsupported("arithmetic on an opaque value")
    num = lambda *k: kmax("i", *k)
    if op == "Add":
        f, kf = (lambda x, y: x + y), num
    elif op == "Sub":
        f, kf = (lambda x, y: x - y), num
    elif op == "Mult":
        f, kf = (lambda x, y: x * y), num
    elif op == "Div":
        nz_oblige(I, b, "divisor is non-zero", a)
        f, kf = (lambda x, y: x / y), (lambda *k: kmax("f", *k))
    elif op == "FloorDiv":
        nz_oblige(I, b, "divisor is non-zero", a)
        f, kf = T.fdiv, num
    elif op == "Mod":
        nz_oblige(I, b, "modulus is non-zero")
        f, kf = T.mod, num
    elif op == "Pow":
        return power(I, a, b)
    elif op in ("BitAnd", "BitOr", "BitXor"):
        x, y = lift(I, a), lift(I, b)
        if x.k == "b" and y.k == "b":
            g = {"BitAnd": And, "BitOr": Or, "BitXor": lambda p, q: Not(T.Iff(p, q))}[op]
            return logical(I, g, x, y)
        raise Unsupported("bitwise operator on numbers")
    elif op == "MatMult":
        return call_ext(I, "numpy.dot", [a, b], {})
    else:
        raise Unsupported("operator " + op)
    r = emap(I, f, kf, a, b)
    if op == "Mult" and isinstance(r, Sc):
        pass
    return ret(I, r)


def power(I, a, b):
    x, y = lift(I, a), lift(I, b)
    if isinstance(y, Sc):
        e = as_num(y.v, y.k)
        c = e.const()
        if c is not None and Fraction(c).denominator == 1:
            c = int(c)
            if c < 0:
                nz_oblige(I, x, "base of a negative power is non-zero")
                if x.k == "i" and y.k == "i" and isinstance(x, Arr):
                    raise RaiseEx("ValueError", "integers to negative integer powers")
                k = kmax("f", x.k)
            else:
                k = kmax(x.k if x.k != "b" else "i", y.k)
            return ret(I, emap(I, lambda u: T.ppow(u, c), lambda q: k, x))
        if c is not None and Fraction(c) == Fraction(1, 2):
            nonneg_oblige(I, x, "base of a square root is non-negative")
            return ret(I, emap(I, T.sqrt, lambda q: kmax("f", q), x))
    # general power: base must be positive (or exponent a non-negative integer)
    k = kmax(x.k, y.k)
    xs = as_num(x.v if isinstance(x, Sc) else x.body, x.k)
    isint = isinstance(y, Sc) and as_num(y.v, y.k).is_int
    if isint and isinstance(x, Sc) and xs.const() is not None and xs.const() >= 1 and \
            Fraction(xs.const()).denominator == 1 and I.ent(T.ge(as_num(y.v, y.k), 0)):
        return Sc(T.ipow(xs, as_num(y.v, y.k)), k, True)
    if isint and I.ent(T.ge(as_num(y.v, y.k), 0)):
        pass
    else:
        if isint:
            nz_oblige(I, x, "base of a negative power is non-zero")
        else:
            if not x_real(x):
                raise Unsupported("complex base with a general exponent")
            pw_oblige(I, x, y)
        k = kmax("f", k)
    return ret(I, emap(I, lambda u, w: T.ppow(u, w), lambda p, q: k, x, y))


def pw_oblige(I, x, y):
    """base positive, or zero with a positive exponent"""
    ys = y.v if isinstance(y, Sc) else None
    if ys is not None and not isinstance(ys, Formula) and ys.is_real and I.ent(T.gt(ys, 0)):
        nonneg_oblige(I, x, "base of a positive power is non-negative")
    else:
        pos_oblige(I, x, "base of a general power is positive")


def x_real(x):
    b = x.v if isinstance(x, Sc) else x.body
    return isinstance(b, Formula) or b.is_real


def body_of(a):
    return as_num(a.v if isinstance(a, Sc) else a.body, a.k)


def cond_oblige(I, a, f, what, exc=None):
    if isinstance(a, Sc):
        I.oblige(f, what, exc)
    elif isinstance(a, Masked):
        oblige_all(I, a.shape, Or(Not(a.mask), f), what, exc)
    else:
        oblige_all(I, a.shape, f, what, exc)


def nonneg_oblige(I, a, what):
    a = lift(I, a)
    b = body_of(a)
    if b.is_real:
        cond_oblige(I, a, T.ge(b, 0), what, "ValueError")


def pos_oblige(I, a, what):
    a = lift(I, a)
    b = body_of(a)
    if b.is_real:
        cond_oblige(I, a, T.gt(b, 0), what, "ValueError")


CMP = {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": T.gt, "GtE": T.ge}


def compare(I, o, a, b):
    if o not in CMP:
        raise Unsupported("comparison " + o)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if o in ("Eq", "NotEq") and isinstance(a, Opaque) and a.tag == "dtype":
            r = dtype_eq(a, b)
            return sc(r if o == "Eq" else not r)
        raise Unsupported("comparison of opaque values")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of opaque values")
    for v in (a, b):
        if isinstance(v, (FuncVal, ClassVal, Obj, DictVal)):
            if o in ("Eq", "NotEq"):
                return sc((a is b) == (o == "Eq"))
            raise RaiseEx("TypeError", "comparison")
    x, y = lift(I, a), lift(I, b)
    if o in ("Lt", "LtE", "Gt", "GtE") and (x.k == "c" or y.k == "c"):
        if isinstance(x, Sc) and isinstance(y, Sc) and x.py and y.py:
            raise RaiseEx("TypeError", "ordering of complex numbers")
        if not (body_of(x).is_real and body_of(y).is_real):
            raise Unsupported("ordering of complex numbers")
    f = CMP[o]
    vals = [x, y]
    finite(vals + [Arr((), "f", T.ZERO)])
    if isinstance(x, Sc) and isinstance(y, Sc):
        if x.k == "b" and y.k == "b" and o in ("Eq", "NotEq"):
            r = T.Iff(x.v, y.v)
            return Sc(r if o == "Eq" else Not(r), "b", x.py and y.py)
        return Sc(f(as_num(x.v, x.k), as_num(y.v, y.k)), "b", x.py and y.py)
    if any(isinstance(v, Masked) for v in vals):
        m = [v for v in vals if isinstance(v, Masked)][0]
        if any(isinstance(v, Arr) for v in vals):
            raise Unsupported("masked comparison")
        return Masked(m.shape, "b", f(body_of(x), body_of(y)), m.mask)
    shape, fns = broadcast(I, vals)
    ix = [IDX(i) for i in range(len(shape))]
    return I.mk(Arr(shape, "b", f(as_num(fns[0](ix), x.k), as_num(fns[1](ix), y.k))))


def dtype_eq(a, b):
    kb = dtype_kind(b)
    return a.data == kb


def logical(I, g, *vals):
    vals = [lift(I, v) for v in vals]
    if all(isinstance(v, Sc) for v in vals):
        return Sc(g(*[as_bool(v.v, v.k) for v in vals]), "b")
    shape, fns = broadcast(I, vals)
    ix = [IDX(i) for i in range(len(shape))]
    return I.mk(Arr(shape, "b", g(*[as_bool(f(ix), v.k) for f, v in zip(fns, vals)])))


def reduce_any(I, v):
    a = lift(I, v)
    if isinstance(a, Sc):
        return Sc(as_bool(a.v, a.k), "b")
    return Sc(quant(I, a, True), "b")


def quant(I, a, ex):
    """exists / forall over all elements of a boolean-ish array."""
    body = as_bool(a.body, a.k)
    if isinstance(a, Masked):
        body = And(a.mask, body) if ex else Or(Not(a.mask), body)
    f = body
    shape = a.shape
    for d in range(len(shape) - 1, -1, -1):
        s = shape[d]
        c = s.const()
        ia = T.the_atom(IDX(d))
        if ia not in f.fv:
            ne = T.ge(s, 1)
            f = And(ne, f) if ex else Or(Not(ne), f)
            continue
        if c is not None and c <= 16:
            fs = [T.subst(f, {ia: T.const(i)}) for i in range(int(c))]
            f = Or(*fs) if ex else And(*fs)
            continue
        v = T.fresh("q")
        g = T.subst(f, {ia: v})
        r = And(T.ge(v, 0), T.lt(v, s))
        f = T.exists(v, And(r, g)) if ex else T.forall(v, Or(Not(r), g))
    return f


# ------------------------------------------------------------------ reductions
def bind_axis(op, n, d, body, nd):
    """Bind index d of an nd-array body; remaining indices are renumbered."""
    v = T.fresh("b")
    m = {T.the_atom(IDX(d)): v}
    for j in range(d + 1, nd):
        m[T.the_atom(IDX(j))] = IDX(j - 1)
    return T.close_bind(op, n, v, T.subst(body, m))


def reduce_axis(I, a, axis, f1):
    """f1(n, fn(idx)->body) -> body; returns Arr/Sc body pairs."""
    nd = a.ndim
    if axis is None:
        body = as_num(a.body, a.k)
        cur = body
        for d in range(nd - 1, -1, -1):
            v = T.fresh("b")
            cur = f1(a.shape[d], v, T.subst(cur, {T.the_atom(IDX(d)): v}))
        return None, cur
    d = axis
    v = T.fresh("b")
    m = {T.the_atom(IDX(d)): v}
    for j in range(d + 1, nd):
        m[T.the_atom(IDX(j))] = IDX(j - 1)
    body = f1(a.shape[d], v, T.subst(as_num(a.body, a.k), m))
    return tuple(a.shape[:d] + a.shape[d + 1:]), body


def get_axis(I, kw, args, pos, nd, default=None):
    ax = kw.get("axis", args[pos] if len(args) > pos else default)
    if ax is None:
        return None
    if isinstance(ax, Sc):
        ax = ax.v.const()
        if ax is None:
            raise Unsupported("symbolic axis")
    ax = int(ax)
    if ax < 0:
        ax += nd
    if not 0 <= ax < nd:
        raise RaiseEx("ValueError", "axis out of bounds (AxisError)")
    return ax


def do_sum(I, a, axis=None):
    if isinstance(a, Sc):
        return Sc(as_num(a.v, a.k), kmax("i", a.k))
    if isinstance(a, Masked):
        body = T.ite(a.mask, as_num(a.body, a.k), 0)
        a = Arr(a.shape, a.k, body)
        axis = None
    sh, b = reduce_axis(I, a, axis, lambda n, v, x: sum_bind(n, v, x))
    k = kmax("i", a.k)
    return Sc(b, k) if sh is None or not sh else Arr(sh, k, b)


def sum_bind(n, v, x):
    return T.close_bind("sum", n, v, x)


def ext_bind(I, n, v, x, op):
    """max/min over an axis."""
    c = n.const()
    va = T.the_atom(v)
    if va not in x.fv:
        return x
    if c is not None and c <= 16:
        vals = [T.subst(x, {va: T.const(i)}) for i in range(int(c))]
        return min_max(I, vals, op)
    return T.close_bind("a" + op, n, v, x)


def min_max(I, vals, op):
    if not all(v.is_real for v in vals):
        vals = [PR.resolve_zero_tests(v, PR.Pc(()).add(*I.pc)) for v in vals]
    r = vals[0]
    for w in vals[1:]:
        if not (r.is_real and w.is_real):      # lexicographic order
            d, e = T.re(r) - T.re(w), T.im(r) - T.im(w)
            first = And(T.lt(e, 0), T.eq0(d)) if not I.ent(T.eq0(e)) else FALSE
            first = Or(T.lt(d, 0), first)
            r = T.ite(first, r, w) if op == "min" else T.ite(first, w, r)
            continue
        r = T.pmin(r, w) if op == "min" else T.pmax(r, w)
    return r


def do_minmax(I, a, op, axis=None):
    if isinstance(a, Sc):
        return a
    if isinstance(a, Masked):
        raise Unsupported("extremum of a masked selection")
    if a.k == "c" and not (a.ndim == 1 and a.shape[0].const() is not None and a.shape[0].const() <= 4):
        raise Unsupported("extremum of complex values")
    for d in ([axis] if axis is not None else range(a.ndim)):
        I.oblige(T.ge(a.shape[d], 1), "extremum of a non-empty array", "ValueError")
    sh, b = reduce_axis(I, a, axis, lambda n, v, x: ext_bind(I, n, v, x, op))
    return Sc(b, a.k if a.k != "b" else "i") if sh is None or not sh else Arr(sh, a.k, b)


def size_of(I, a, axis):
    return a.shape[axis] if axis is not None else prod(a.shape)


# ------------------------------------------------------------------ indexing
def norm_slice(I, s, n):
    """(start, step, count) of slice s on a dimension of length n."""
    def val(x):
        if x is None:
            return None
        if isinstance(x, (int,)):
            return P(x)
        if isinstance(x, Sc):
            if x.k not in ("i", "b"):
                raise RaiseEx("TypeError", "slice indices must be integers at " + I.where)
            return as_num(x.v, x.k)
        raise RaiseEx("TypeError", "slice indices must be integers at " + I.where)
    lo, hi, st = val(s.lo), val(s.hi), val(s.st)
    if st is None:
        st = T.ONE
    c = st.const()
    neg = False
    if c is not None:
        if c == 0:
            raise RaiseEx("ValueError", "slice step cannot be zero")
        neg = c < 0
    else:
        if not I.ent(T.gt(st, 0)):
            I.oblige(T.gt(st, 0), "slice step is positive", "ValueError")

    def clip(x, lo0, hi0):
        # x possibly negative (from the end), clipped to [lo0, hi0]
        if I.ent(T.ge(x, 0)):
            y = x
        elif I.ent(T.lt(x, 0)):
            y = x + n
        else:
            y = T.ite(T.ge(x, 0), x, x + n)
        if not I.ent(T.ge(y, lo0)):
            y = P(lo0) if I.ent(T.le(y, lo0)) else T.pmax(lo0, y)
        if not I.ent(T.le(y, hi0)):
            y = P(hi0) if I.ent(T.ge(y, hi0)) else T.pmin(y, hi0)
        return y
    if not neg:
        lo = T.ZERO if lo is None else clip(lo, T.ZERO, n)
        hi = n if hi is None else clip(hi, T.ZERO, n)
        if c == 1:
            cnt = max0(I, hi - lo)
        else:
            cnt = max0(I, T.fdiv(hi - lo + st - 1, st))
        return lo, st, cnt
    lo = n - 1 if lo is None else clip(lo, P(-1), n - 1)
    hi = P(-1) if hi is None else clip(hi, P(-1), n - 1)
    if c == -1:
        cnt = max0(I, lo - hi)
    else:
        cnt = max0(I, T.fdiv(lo - hi - st - 1, -st))
    return lo, st, cnt


class Sel:
    """A selection: per base dimension ("int", J) | ("slice", start, step, n) |
    ("adv", body over fancy dims); fshape: fancy shape; outdims: list of
    ("slice", base dim) | ("fancy", j) | ("new",)."""
    __slots__ = ("comps", "fshape", "out", "fpos")

    def __init__(self, comps, fshape, out):
        self.comps, self.fshape, self.out = comps, fshape, out

    def out_shape(self):
        sh = []
        for o in self.out:
            if o[0] == "slice":
                sh.append(self.comps[o[1]][3])
            elif o[0] == "fancy":
                sh.append(self.fshape[o[1]])
            else:
                sh.append(T.ONE)
        return sh


def wrap_index(I, J, n, shape=()):
    """Python index -> 0-based; obligation of range."""
    ok = And(T.ge(J, -n), T.lt(J, n))
    if shape is None:
        return J
    if len(shape) == 0:
        if I.ent(T.ge(J, 0)):
            I.oblige(T.lt(J, n), "index in range", "IndexError")
            return J
        I.oblige(ok, "index in range", "IndexError")
        if I.ent(T.ge(J, 0)):
            return J
        if I.ent(T.lt(J, 0)):
            return J + n
        return T.mod(J, n)
    if ent_all(I, shape, T.ge(J, 0)):
        oblige_all(I, shape, T.lt(J, n), "indices in range", "IndexError")
        return J
    oblige_all(I, shape, ok, "indices in range", "IndexError")
    if ent_all(I, shape, T.lt(J, 0)):
        return J + n
    return T.mod(J, n)


def make_sel(I, a, ix):
    """Index tuple -> Sel (no boolean masks)."""
    comps_in = []
    nnew = sum(1 for x in ix if x is None)
    nell = sum(1 for x in ix if x is ELLIPSIS)
    nreal = len(ix) - nnew - nell
    if nreal > a.ndim:
        raise RaiseEx("IndexError", "too many indices at " + I.where)
    for x in ix:
        if x is ELLIPSIS:
            comps_in += [SliceVal(None, None, None)] * (a.ndim - nreal)
        else:
            comps_in.append(x)
    if nell == 0:
        comps_in += [SliceVal(None, None, None)] * (a.ndim - nreal)
    comps = []
    order = []            # per input component: kind
    fancies = []
    d = 0
    for x in comps_in:
        if x is None:
            order.append(("new",))
            continue
        n = a.shape[d]
        if isinstance(x, SliceVal):
            lo, st, cnt = norm_slice(I, x, n)
            comps.append(("slice", lo, st, cnt))
            order.append(("slice", d))
        elif isinstance(x, (Sc, int)):
            x = sc(x)
            if x.k != "i":
                raise RaiseEx("IndexError", "only integers are valid indices (kind %s) at %s" % (x.k, I.where))
            J = wrap_index(I, x.v, n)
            comps.append(("int", J))
            order.append(("int", d))
        elif is_arr(x) or isinstance(x, RangeVal):
            v = lift(I, x)
            if isinstance(v, Sc):
                raise Unsupported("0-d index")
            if v.k == "b":
                raise Unsupported("boolean mask on one axis")
            if v.k != "i":
                if not (len(v.shape) == 1 and v.shape[0].const() == 0 and isinstance(x, Lst)):
                    raise RaiseEx("IndexError", "arrays used as indices must be of integer type at " + I.where)
            J = wrap_index(I, v.body, n, v.shape)
            comps.append(("advraw", Arr(v.shape, "i", J)))
            fancies.append(len(comps) - 1)
            order.append(("adv", d))
        else:
            raise Unsupported("index of type %s" % type(x).__name__)
        d += 1
    fshape = []
    if fancies:
        arrs = [comps[f][1] for f in fancies]
        fshape, fns = broadcast(I, arrs)
        fi = [T.var("%%%d" % j) for j in range(len(fshape))]
        for f, g in zip(fancies, fns):
            comps[f] = ("adv", g(fi))
        # scalars combine with arrays as advanced indices: position of fancy block
        advpos = [p for p, o in enumerate(order) if o[0] in ("adv", "int")]
        contiguous = advpos[-1] - advpos[0] + 1 == len(advpos)
        out = []
        placed = False
        if not contiguous:
            out += [("fancy", j) for j in range(len(fshape))]
            placed = True
        for p, o in enumerate(order):
            if o[0] in ("adv", "int"):
                if not placed:
                    out += [("fancy", j) for j in range(len(fshape))]
                    placed = True
            elif o[0] == "slice":
                out.append(("slice", o[1]))
            else:
                out.append(("new",))
    else:
        out = [o for o in order if o[0] in ("slice", "new")]
    return Sel(comps, list(fshape), out)


def fvars(n):
    return [T.var("%%%d" % j) for j in range(n)]


def read_sel(I, a, sel):
    sh = sel.out_shape()
    slot = {}
    fmap = {}
    for j, o in enumerate(sel.out):
        if o[0] == "slice":
            slot[o[1]] = IDX(j)
        elif o[0] == "fancy":
            fmap[T.the_atom(T.var("%%%d" % o[1]))] = IDX(j)
    idx = []
    for d, c in enumerate(sel.comps):
        if c[0] == "int":
            idx.append(c[1])
        elif c[0] == "slice":
            idx.append(c[1] + c[2] * slot[d])
        else:
            idx.append(T.subst(c[1], fmap) if fmap else c[1])
    body = at(a, idx)
    return Arr(sh, a.k, body)


def getitem(I, o, ix):
    if isinstance(o, DictVal):
        k = ix[0]
        if isinstance(k, Sc):
            k = k.v
        if k not in o.d:
            raise RaiseEx("KeyError", str(k))
        return o.d[k]
    if isinstance(o, str):
        return "<str>"
    if isinstance(o, (tuple, Lst)):
        items = o if isinstance(o, tuple) else I.get(o)
        if len(ix) != 1:
            raise RaiseEx("TypeError", "list indices")
        x = ix[0]
        if isinstance(x, SliceVal):
            def cv(y):
                if y is None:
                    return None
                c = sc(y).v.const()
                if c is None:
                    raise Unsupported("symbolic slice of a list")
                return int(c)
            r = items[slice(cv(x.lo), cv(x.hi), cv(x.st))]
            return r if isinstance(o, tuple) else I.lst(r)
        if isinstance(x, (Sc, int)):
            x = sc(x)
            if x.k not in ("i", "b"):
                raise RaiseEx("TypeError", "list indices must be integers")
            c = as_num(x.v, x.k).const()
            if c is None:
                if all(isinstance(i, Sc) for i in items):
                    a = from_list(I, items)
                    J = wrap_index(I, x.v, a.shape[0])
                    return Sc(at(a, [J]), a.k, True)
                raise Unsupported("symbolic list index")
            c = int(c)
            if not -len(items) <= c < len(items):
                raise RaiseEx("IndexError", "list index out of range")
            return items[c]
        raise RaiseEx("TypeError", "list indices must be integers")
    if isinstance(o, Ext):
        if o.name == "numpy.r_":
            return concat_r(I, ix)
        if o.name == "numpy.c_":
            return concat_c(I, ix)
        raise Unsupported("subscript of %s" % o.name)
    if isinstance(o, RangeVal):
        x = sc(ix[0])
        J = wrap_index(I, x.v, o.n)
        return Sc(o.start + o.step * J, "i", True)
    if isinstance(o, Opaque) and o.tag == "shape":
        raise Unsupported("opaque shape")
    if isinstance(o, Sc):
        raise RaiseEx("TypeError" if o.py else "IndexError", "subscript of a scalar at " + I.where)
    if not isinstance(o, (Ref, Arr)):
        if isinstance(o, Masked):
            raise Unsupported("index into a masked selection")
        raise Unsupported("subscript of %s" % type(o).__name__)
    a = I.get(o) if isinstance(o, Ref) else o
    ix = expand_nonzero(ix)
    if len(ix) > 1 and any(isinstance(x, Opaque) and x.tag == "nonzero" and x.data[0].ndim == 1 for x in ix) and \
            not all(isinstance(x, Opaque) for x in ix):
        ix = tuple(I.mk(positions(I, x.data[0])) if isinstance(x, Opaque) and x.tag == "nonzero" else x for x in ix)
    m = mask_index(I, a, ix)
    if m is not None:
        return Masked(a.shape, a.k, a.body, m)
    basic = all(x is None or x is ELLIPSIS or isinstance(x, (SliceVal, Sc, int)) for x in ix)
    sel = make_sel(I, a, ix)
    r = read_sel(I, a, sel)
    if r.ndim == 0:
        return Sc(r.body, r.k)
    if basic and isinstance(o, Ref):
        c = I.newcell(r, o.cell)
        if all(x is not None for x in ix):
            I.viewof[c] = (o.cell, sel, r.shape)
        return Ref(c)
    return I.mk(r)


def expand_nonzero(ix):
    if len(ix) == 1 and isinstance(ix[0], tuple):
        return expand_nonzero(ix[0])
    return ix


def positions(I, m):
    """The positions where a 1-D mask holds, as an index array of unknown length."""
    for mm, r in I.positions:
        if mm is m:
            return r
    n = m.shape[0]
    k = I.fresh_scalar("nnz", "i")
    I.assume(And(T.ge(k, 0), T.le(k, n)))
    a = I.fresh_arr("pos", (k,), "i")
    smt.ELEM_INV[T.the_atom(a.body).args[0]] = lambda idx, v: T.ge(v, 0)
    i = IDX(0)
    r = Arr(a.shape, "i", T.pmin(a.body, n - 1))       # a position is below n; min(.., n - 1) states it
    I.positions.append((m, r))
    return r


def mask_index(I, a, ix):
    """Formula of a boolean mask (over IDX of a) or None."""
    if len(ix) >= 1 and all(isinstance(x, Opaque) and x.tag == "nonzero" for x in ix):
        m = ix[0].data[0]
        if len(ix) == a.ndim == len(m.shape) and all(x.data[0] is m and x.data[1] == i for i, x in enumerate(ix)):
            for p, q in zip(a.shape, m.shape):
                I.oblige(T.eq(p, q), "mask has the array's shape", "IndexError")
            return m.body
        raise Unsupported("index by nonzero positions")
    if len(ix) == 1 and is_arr(ix[0]):
        v = lift(I, ix[0])
        if isinstance(v, Arr) and v.k == "b":
            if v.ndim != a.ndim:
                if v.ndim > a.ndim:
                    raise RaiseEx("IndexError", "too many indices for array")
                raise Unsupported("mask on leading axes")
            for p, q in zip(a.shape, v.shape):
                I.oblige(T.eq(p, q), "mask has the array's shape", "IndexError")
            return v.body
    if any(isinstance(x, Opaque) for x in ix):
        raise Unsupported("opaque index")
    return None


def setitem(I, o, ix, v):
    if isinstance(o, DictVal):
        o.d[ix[0]] = v
        return
    if isinstance(o, Lst):
        c = sc(ix[0]).v.const()
        if c is None:
            raise Unsupported("symbolic list store")
        I.not_module_state(o.cell)
        items = list(I.get(o))
        items[int(c)] = v
        I.heap[o.cell] = tuple(items)
        return
    if isinstance(o, tuple):
        raise RaiseEx("TypeError", "tuple assignment")
    if not isinstance(o, Ref):
        raise Unsupported("store into %s" % type(o).__name__)
    a = I.get(o)
    val = lift(I, v)
    ix = expand_nonzero(ix)
    m = mask_index(I, a, ix)
    if m is not None:
        if isinstance(val, Masked):
            if val.mask is not m:
                raise Unsupported("masked store with a different mask")
            nb = cast_body(I, val, a.k)
        elif isinstance(val, Sc):
            nb = store_cast(I, val, a.k)
        else:
            raise Unsupported("masked store of an array")
        body = T.fite(m, nb, a.body) if a.k == "b" else T.ite(m, nb, a.body)
        I.write(o, Arr(a.shape, a.k, body))
        return
    if isinstance(val, Masked):
        raise Unsupported("store of a masked selection")
    sel = make_sel(I, a, ix)
    cb = store_cast(I, val, a.k)
    if isinstance(val, Arr):
        val = Arr(val.shape, a.k, cb)
    else:
        val = Sc(cb, a.k)
    I.write(o, store_sel(I, a, sel, val))


def store_cast(I, val, k):
    if val.k == "c" and k != "c" and isinstance(val, Sc) and val.py:
        raise RaiseEx("TypeError", "can't convert complex to float at " + I.where)
    return cast_body(I, val, k)


def invert_map(I, g, fv, m, x, dim):
    """Solve g(l) = x for l, where 0 <= l < m: (l, cond) or None.
    g is a Poly in the variable atom fv."""
    l = fv.poly
    li = smt.linear_in(g, fv)
    if li:
        c, b = li
        if c in (1, -1):
            s = (x - b) * c
            return s, And(T.ge(s, 0), T.lt(s, m))
        if isinstance(c, int) and c != 0:
            d = (x - b) * (1 if c > 0 else -1)
            q = T.fdiv(d, abs(c))
            return q, And(T.eq(T.mod(d, abs(c)), 0), T.ge(q, 0), T.lt(q, m))
    # symbolic stride a*l + b
    coef, rest, ok = T.ZERO, T.ZERO, True
    for mm, k in g.t.items():
        if (fv, 1) in mm:
            r = tuple(z for z in mm if z[0] is not fv)
            if any(fv in b.fv for b, _ in r):
                ok = False
                break
            coef = coef + Poly.make({r: k})
        elif any(fv in b.fv for b, _ in mm):
            ok = False
            break
        else:
            rest = rest + Poly.make({mm: k})
    if ok and coef.t and coef.is_int and I.ent(T.gt(coef, 0)):
        d = x - rest
        q = T.fdiv(d, coef)
        return q, And(T.eq(T.mod(d, coef), 0), T.ge(q, 0), T.lt(q, m))
    a = T.the_atom(g)
    if a is not None and a.kind == "mod":
        li = smt.linear_in(a.args[0], fv)
        F = a.args[1]
        if li and li[0] in (1, -1) and fv not in F.fv:
            if I.ent(T.le(m, F)):
                s = T.mod((x - li[1]) * li[0], F)
                cond = T.lt(s, m)
                if F is not dim and not I.ent(T.le(dim, F)):
                    cond = And(cond, T.lt(x, F))
                return s, cond
    # piecewise: ite(c, g1, g2) with both arms linear -- not handled
    return None


def store_sel(I, a, sel, val):
    """New Arr: a with the selected cells replaced by val (broadcast)."""
    osh = sel.out_shape()
    x = [IDX(d) for d in range(a.ndim)]
    conds = []
    coord = [None] * len(sel.out)        # out coordinate expressions
    slot = {o[1]: j for j, o in enumerate(sel.out) if o[0] == "slice"}
    fslot = {o[1]: j for j, o in enumerate(sel.out) if o[0] == "fancy"}
    for d, c in enumerate(sel.comps):
        n = a.shape[d]
        if c[0] == "int":
            conds.append(T.eq(x[d], c[1]))
        elif c[0] == "slice":
            lo, st, cnt = c[1:]
            cc = st.const()
            if cc == 1:
                l = x[d] - lo
                if lo is T.ZERO and cnt is n:
                    coord[slot[d]] = x[d]
                    continue
                conds.append(And(T.ge(l, 0), T.lt(l, cnt)))
            elif cc == -1:
                l = lo - x[d]
                conds.append(And(T.ge(l, 0), T.lt(l, cnt)))
            else:
                if cc is not None and cc < 0:
                    dd, ss = lo - x[d], -st
                else:
                    dd, ss = x[d] - lo, st
                l = T.fdiv(dd, ss)
                conds.append(And(T.eq(T.mod(dd, ss), 0), T.ge(l, 0), T.lt(l, cnt)))
            coord[slot[d]] = l
    fs = fvars(len(sel.fshape))
    fatoms = [T.the_atom(f) for f in fs]
    left = [d for d, c in enumerate(sel.comps) if c[0] == "adv"]
    known = {}
    progress = True
    while left and progress:
        progress = False
        for d in list(left):
            g = sel.comps[d][1]
            g = T.subst(g, known) if known else g
            free = [f for f in fatoms if f in g.fv]
            if not free:
                conds.append(T.eq(x[d], g))
                left.remove(d)
                progress = True
                continue
            if len(free) == 1:
                j = fatoms.index(free[0])
                r = invert_map(I, g, free[0], sel.fshape[j], x[d], a.shape[d])
                if r is None:
                    continue
                known[free[0]] = r[0]
                conds.append(r[1])
                left.remove(d)
                progress = True
    for j, f in enumerate(fatoms):
        if f not in known:
            if sel.fshape[j].const() == 1:
                known[f] = T.ZERO
            elif sel.fshape and left == [] and isinstance(val, Sc):
                # no base index depends on this fancy dim
                known[f] = T.ZERO
                conds.append(T.ge(sel.fshape[j], 1))
            else:
                left.append(-1)
    if left:
        # scatter with unknown inverse: scalar values mark the set of targets
        if isinstance(val, Sc) and len(fatoms) == 1 and all(d >= 0 for d in left):
            l = T.fresh("s")
            hit = And(*[T.eq(x[d], T.subst(sel.comps[d][1], {fatoms[0]: l})) for d in left])
            v = val.v
            ex = T.exists(l, And(T.ge(l, 0), T.lt(l, sel.fshape[0]), hit))
            c = And(*conds, ex)
            body = T.fite(c, v, a.body) if a.k == "b" else T.ite(c, v, a.body)
            return Arr(a.shape, a.k, body)
        I.abstracted.append("fancy store whose target is not invertible")
        return I.fresh_arr("S", a.shape, a.k)
    for j, f in enumerate(fatoms):
        coord[fslot[j]] = known[f]
    # value shape against selection shape
    if isinstance(val, Arr):
        vs = list(val.shape)
        vi = []
        off = len(osh) - len(vs)
        if off < 0:
            lead = vs[:-off]
            if any(s.const() != 1 for s in lead):
                raise RaiseEx("ValueError", "could not broadcast at " + I.where)
        for p, s in enumerate(vs):
            q = p + off
            if q < 0:
                vi.append(T.ZERO)
                continue
            if s.const() == 1:
                vi.append(T.ZERO)
                continue
            if s is not osh[q]:
                I.oblige(T.eq(s, osh[q]), "stored values match the selected cells", "ValueError")
            vi.append(coord[q] if coord[q] is not None else T.ZERO)
        v = at(val, vi)
    else:
        v = val.v
    c = And(*conds)
    body = T.fite(c, v, a.body) if a.k == "b" else T.ite(c, v, a.body)
    return Arr(a.shape, a.k, body)


# ------------------------------------------------------------------ joining
def join(I, parts, axis):
    """Concatenate Arrs along an axis."""
    nd = parts[0].ndim
    for p in parts:
        if p.ndim != nd:
            raise RaiseEx("ValueError", "concatenate: dimensions differ at " + I.where)
        for d in range(nd):
            if d != axis and p.shape[d] is not parts[0].shape[d]:
                I.oblige(T.eq(p.shape[d], parts[0].shape[d]), "joined arrays agree", "ValueError")
    k = kmax(*[p.k for p in parts])
    allb = all(p.k == "b" for p in parts)
    off = T.ZERO
    arms = []
    for p in parts:
        ix = [IDX(d) for d in range(nd)]
        ix[axis] = IDX(axis) - off
        arms.append((off + p.shape[axis], at(p, ix) if allb else at_num(p, ix)))
        off = off + p.shape[axis]
    body = arms[-1][1]
    for end, b in reversed(arms[:-1]):
        c = T.lt(IDX(axis), end)
        body = T.fite(c, b, body) if allb else T.ite(c, b, body)
    sh = list(parts[0].shape)
    sh[axis] = off
    return Arr(sh, k if not allb else "b", body)


def to_col(I, v):
    a = lift(I, v)
    if isinstance(a, Sc):
        return Arr((1, 1), a.k, a.v)
    if a.ndim == 1:
        return Arr((a.shape[0], 1), a.k, at(a, [IDX(0)]))
    return a


def concat_c(I, ix):
    parts = [to_col(I, slice_range(I, x)) for x in ix]
    return I.mk(join(I, parts, 1))


def slice_range(I, x):
    if isinstance(x, SliceVal):
        lo = x.lo if x.lo is not None else sc(0)
        if isinstance(x.st, Sc) and x.st.k == "c":
            raise Unsupported("r_ with complex step")
        return call_ext(I, "numpy.arange", [lo, x.hi] + ([x.st] if x.st is not None else []), {})
    return x


def to_1d(I, v):
    a = lift(I, v)
    if isinstance(a, Sc):
        return Arr((1,), a.k, a.v)
    if isinstance(a, Masked):
        raise Unsupported("join of a masked selection")
    return a


def concat_r(I, ix):
    parts = [to_1d(I, slice_range(I, x)) for x in ix]
    return I.mk(join(I, parts, 0))


def ravel_arr(I, a, order="C"):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return Arr((1,), a.k, a.body)
    if a.ndim == 2:
        r, c = a.shape
        i = IDX(0)
        if r.const() == 1:
            return Arr((c,), a.k, at(a, [T.ZERO, i]))
        if c.const() == 1:
            return Arr((r,), a.k, at(a, [i, T.ZERO]))
        if order == "C":
            return Arr((r * c,), a.k, at(a, [T.fdiv(i, c), T.mod(i, c)]))
        return Arr((r * c,), a.k, at(a, [T.mod(i, r), T.fdiv(i, r)]))
    raise Unsupported("ravel of a %d-d array" % a.ndim)


def reshape_arr(I, a, shape, order="C"):
    shape = list(shape)
    neg = [i for i, s in enumerate(shape) if s.const() == -1]
    total = prod(a.shape)
    if neg:
        rest = prod([s for i, s in enumerate(shape) if i not in neg])
        if rest.const() == 1:
            shape[neg[0]] = total
        else:
            I.oblige(T.eq(T.mod(total, rest), 0), "reshape size", "ValueError")
            shape[neg[0]] = T.fdiv(total, rest)
    else:
        I.oblige(T.eq(prod(shape), total), "reshape keeps the size", "ValueError")
    if len(shape) == a.ndim and all(x is y for x, y in zip(shape, a.shape)):
        return a
    # column <-> vector
    if a.ndim == 2 and len(shape) == 1:
        return Arr(shape, a.k, ravel_arr(I, a, order).body)
    f = ravel_arr(I, a, order)
    if len(shape) == 1:
        return Arr(shape, a.k, f.body)
    if len(shape) == 2:
        r, c = shape
        i, j = IDX(0), IDX(1)
        if r.const() == 1:
            return Arr(shape, a.k, at(f, [j]))
        if c.const() == 1:
            return Arr(shape, a.k, at(f, [i]))
        # position i*c+j of the flat array: its row and column are i and j (0 <= j < c)
        u, v = T.fresh("row"), T.fresh("col")
        m = {}
        for x, y in ((T.fdiv(i, c if order == "C" else r), u), (T.mod(i, c if order == "C" else r), v)):
            if T.the_atom(x) is not None and x.fv:
                m[T.the_atom(x)] = y
        body = T._subst(f.body, m, frozenset(m), {}, False) if m else f.body
        p = i * c + j if order == "C" else i + j * r
        q = (i, j) if order == "C" else (j, i)
        return Arr(shape, a.k, T.subst(body, {T.the_atom(i): p, T.the_atom(u): q[0], T.the_atom(v): q[1]}))
    raise Unsupported("reshape to %d dimensions" % len(shape))


def transpose_arr(a):
    if a.ndim < 2:
        return a
    if a.ndim == 2:
        return Arr((a.shape[1], a.shape[0]), a.k, at(a, [IDX(1), IDX(0)]))
    raise Unsupported("transpose")


# ------------------------------------------------------------------ dtypes and shapes
def dtype_kind(d):
    if d is None:
        return None
    if isinstance(d, Ext):
        n = d.name.split(".")[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, Opaque) and d.tag == "dtype":
        return d.data
    else:
        raise Unsupported("dtype")
    n = n.rstrip("_")
    if n.startswith("complex") or n in ("c16", "D", "cdouble", "clongdouble"):
        return "c"
    if n.startswith("float") or n in ("f8", "d", "double", "longdouble"):
        return "f"
    if n.startswith("int") or n in ("i8", "i4", "intp", "long", "longlong"):
        return "i"
    if n == "bool":
        return "b"
    raise Unsupported("dtype " + n)


def shape_arg(I, v):
    if isinstance(v, (Sc, int)):
        return [shape_dim(I, v)]
    if isinstance(v, (tuple, Lst)):
        items = v if isinstance(v, tuple) else I.get(v)
        return [shape_dim(I, x) for x in items]
    raise Unsupported("shape argument")


def shape_dim(I, v):
    s = need_int(v, "array dimension at " + I.where)
    c = s.const()
    if c is not None and c >= 0:
        return s
    if c != -1:
        I.oblige(T.ge(s, 0), "array dimension is non-negative", "ValueError")
    return s


def ones_body(k, v):
    if k == "b":
        return T.B(bool(v))
    return P(v)


# ------------------------------------------------------------------ attributes
ARR_METHODS = {"astype", "copy", "ravel", "flatten", "reshape", "sum", "mean", "std", "var", "min", "max", "conj",
               "conjugate", "dot", "any", "all", "fill", "squeeze", "transpose", "cumsum", "round", "nonzero",
               "tolist", "argmax", "argmin", "item", "repeat", "clip", "prod", "sort", "view", "ptp", "is_integer"}


def getattr(I, o, n):
    if isinstance(o, Masked):
        if n == "shape":
            raise Unsupported("shape of a masked selection")
        if n in ARR_METHODS:
            return ExtMethod(o, n)
        raise Unsupported("attribute %s of a masked selection" % n)
    if type(o) is Ref:
        a = I.get(o)
        if n == "shape":
            return tuple(Sc(s, "i", True) for s in a.shape)
        if n == "ndim":
            return sc(a.ndim)
        if n == "size":
            return Sc(prod(a.shape), "i", True)
        if n == "T":
            c = I.newcell(transpose_arr(a), o.cell)
            return Ref(c)
        if n == "real":
            return Ref(I.newcell(Arr(a.shape, "f" if a.k == "c" else a.k, T.re(as_num(a.body, a.k))), o.cell))
        if n == "imag":
            return Ref(I.newcell(Arr(a.shape, "f" if a.k == "c" else a.k, T.im(as_num(a.body, a.k))), o.cell))
        if n == "dtype":
            return Opaque("dtype", a.k)
        if n in ARR_METHODS:
            return ExtMethod(o, n)
        raise RaiseEx("AttributeError", "ndarray.%s at %s" % (n, I.where))
    if isinstance(o, Sc):
        if n == "real":
            return Sc(T.re(as_num(o.v, o.k)), "f" if o.k == "c" else o.k, o.py)
        if n == "imag":
            return Sc(T.im(as_num(o.v, o.k)), "f" if o.k == "c" else o.k, o.py)
        if not o.py:
            if n == "shape":
                return ()
            if n == "ndim":
                return sc(0)
            if n == "size":
                return sc(1)
            if n == "dtype":
                return Opaque("dtype", o.k)
            if n in ARR_METHODS:
                return ExtMethod(o, n)
        if n in ("conjugate", "is_integer", "bit_length"):
            return ExtMethod(o, n)
        raise RaiseEx("AttributeError", "number has no attribute %s at %s" % (n, I.where))
    if isinstance(o, (str, Lst, tuple, DictVal)):
        return ExtMethod(o, n)
    if isinstance(o, Opaque):
        if o.tag == "dtype":
            if n == "kind":
                return {"c": "c", "f": "f", "i": "i", "b": "b"}[o.data]
            if n == "name":
                return {"c": "complex128", "f": "float64", "i": "int64", "b": "bool"}[o.data]
        if o.tag == "exc":
            raise Unsupported("exception attribute")
        if o.tag == "finfo" and n == "eps":
            return Sc(P(Fraction(1, 2 ** 52)), "f")
        return ExtMethod(o, n)
    if o is None:
        raise RaiseEx("AttributeError", "None.%s at %s" % (n, I.where))
    if isinstance(o, FuncVal) and n == "__name__":
        return o.name
    raise Unsupported("attribute %s of %s" % (n, type(o).__name__))


def call_method(I, o, n, args, kw):
    if isinstance(o, DictVal):
        if n == "get":
            return o.d.get(args[0], args[1] if len(args) > 1 else None)
        if n == "pop":
            if args[0] in o.d:
                return o.d.pop(args[0])
            if len(args) > 1:
                return args[1]
            raise RaiseEx("KeyError", str(args[0]))
        if n == "items":
            return tuple((k, v) for k, v in o.d.items())
        if n == "keys":
            return tuple(o.d)
        if n == "values":
            return tuple(o.d.values())
        if n == "setdefault":
            return o.d.setdefault(args[0], args[1] if len(args) > 1 else None)
        raise Unsupported("dict." + n)
    if isinstance(o, str):
        if n in ("upper", "lower", "strip", "format", "join"):
            return "<str>" if n in ("format", "join") else str.__dict__[n](o)
        if n == "startswith" and isinstance(args[0], str):
            return sc(o.startswith(args[0]))
        raise Unsupported("str." + n)
    if isinstance(o, Lst):
        I.not_module_state(o.cell)
        if n == "append":
            if I.loop_idx:
                raise Unsupported("list append in a symbolic loop")
            I.heap[o.cell] = I.get(o) + (args[0],)
            return None
        if n == "extend":
            I.heap[o.cell] = I.get(o) + tuple(I.iter_concrete(args[0]))
            return None
        raise Unsupported("list." + n)
    if isinstance(o, Opaque):
        raise Unsupported("method %s of an opaque value" % n)
    if isinstance(o, Sc) and n == "is_integer":
        return Sc(T.eq(T.floor(o.v), o.v), "b", True)
    if n == "astype":
        a = lift(I, o)
        k = dtype_kind(args[0] if args else kw.get("dtype"))
        if isinstance(a, Masked):
            return Masked(a.shape, k, cast_body(I, a, k), a.mask)
        if isinstance(a, Sc):
            return Sc(cast_body(I, a, k), k)
        return I.mk(Arr(a.shape, k, cast_body(I, a, k)))
    if n == "copy":
        a = lift(I, o)
        return ret(I, a) if isinstance(a, Arr) else a
    if n in ("ravel", "flatten"):
        a = lift(I, o)
        if isinstance(a, Sc):
            return I.mk(Arr((1,), a.k, a.v))
        order = kw.get("order", args[0] if args else "C")
        r = ravel_arr(I, a, order)
        if n == "flatten":
            return I.mk(r)
        return Ref(I.newcell(r, o.cell))
    if n == "reshape":
        a = lift(I, o)
        sh = args[0] if len(args) == 1 else tuple(args)
        r = reshape_arr(I, a, shape_arg(I, sh), kw.get("order", "C"))
        return Ref(I.newcell(r, o.cell)) if isinstance(o, Ref) else I.mk(r)
    if n == "transpose":
        if args:
            raise Unsupported("transpose with axes")
        return Ref(I.newcell(transpose_arr(I.get(o)), o.cell))
    if n == "squeeze":
        a = lift(I, o)
        keep = [d for d in range(a.ndim) if a.shape[d].const() != 1]
        ix = []
        for d in range(a.ndim):
            ix.append(IDX(keep.index(d)) if d in keep else T.ZERO)
        r = Arr([a.shape[d] for d in keep], a.k, at(a, ix))
        return Ref(I.newcell(r, o.cell)) if r.ndim else Sc(r.body, r.k)
    if n == "fill":
        a = I.get(o)
        v = lift(I, args[0])
        I.write(o, Arr(a.shape, a.k, store_cast(I, v, a.k)))
        return None
    if n == "item":
        a = lift(I, o)
        if isinstance(a, Sc):
            return Sc(a.v, a.k, True)
        I.oblige(T.eq(prod(a.shape), 1), "item() of one element", "ValueError")
        return Sc(at(a, [0] * a.ndim), a.k, True)
    if n == "sort":
        raise Unsupported("in-place sort")
    if n in ("tolist", "view"):
        raise Unsupported("ndarray." + n)
    return call_ext(I, ALIAS.get("numpy." + n, "numpy." + n), [o] + args, kw)


# ------------------------------------------------------------------ functions
FN = {}


def np_fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def call_ext(I, name, args, kw):
    name = ALIAS.get(name, name)
    USED.add(name)
    f = FN.get(name)
    if f is not None:
        return f(I, args, kw)
    base = name.split(".")
    if base[0] == "builtins":
        if base[1] in BUILTIN_EXC:
            return Opaque("exc", name)
        raise Unsupported("builtin " + base[1])
    if name.startswith(OPAQUE_MODS):
        raise Unsupported("plotting")
    raise Unsupported("library function " + name)


def kf(k):
    return kmax("f", k)


def elementwise(name, fn, kfn=kf, pre=None):
    def g(I, args, kw):
        if "out" in kw:
            raise Unsupported("out= argument")
        v = args[0]
        if pre:
            pre(I, v)
        a = lift(I, v)
        if a.k == "c" and name in ("numpy.floor", "numpy.ceil", "numpy.trunc"):
            raise RaiseEx("TypeError", "ufunc not supported for complex")
        r = emap(I, fn, kfn, a)
        if isinstance(r, Sc) and r.py:
            r = Sc(r.v, r.k, False)
        return ret(I, r)
    FN[name] = g


def kid(k):
    return "i" if k == "b" else k


def exp_c(x):
    if x.is_real:
        return T.exp(x)
    re, im = T.split_I(x)
    return T.exp(re) * T.cis(im / (2 * T.PI)) if True else None


def exp_fn(x):
    return T.exp(x)


elementwise("numpy.abs", T.pabs, lambda k: {"c": "f", "b": "i"}.get(k, k))
elementwise("numpy.real", T.re, lambda k: {"c": "f", "b": "i"}.get(k, k))
elementwise("numpy.imag", T.im, lambda k: {"c": "f", "b": "i"}.get(k, k))
elementwise("numpy.conj", T.conj, kid)
elementwise("numpy.exp", exp_fn)
elementwise("numpy.square", lambda x: x * x, kid)
elementwise("numpy.negative", lambda x: -x, kid)
elementwise("numpy.cos", T.cos)
elementwise("numpy.sin", T.sin)
elementwise("numpy.sinh", lambda x: (T.exp(x) - T.exp(-x)) / 2)
elementwise("numpy.cosh", lambda x: (T.exp(x) + T.exp(-x)) / 2)
elementwise("numpy.sqrt", T.sqrt, kf, lambda I, v: nonneg_oblige(I, v, "square root of a non-negative number"))
elementwise("numpy.log", T.log, kf, lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
elementwise("numpy.log2", lambda x: T.log(x) / T.log(T.const(2)), kf,
            lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
elementwise("numpy.log10", lambda x: T.log(x) / T.log(T.const(10)), kf,
            lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
elementwise("numpy.floor", T.floor)
elementwise("numpy.ceil", T.ceil)
elementwise("numpy.trunc", T.trunc)
elementwise("numpy.sign", lambda x: T.ite(T.gt(x, 0), 1, T.ite(T.lt(x, 0), -1, 0)), kid)


def arccos_fn(x):
    c = x.const()
    if c == 1:
        return T.ZERO
    if c == 0:
        return T.PI / 2
    if c == -1:
        return T.PI
    return T.fn("arccos", (x,))


def unit_oblige(I, a):
    a = lift(I, a)
    b = body_of(a)
    cond_oblige(I, a, And(T.le(b, 1), T.ge(b, -1)), "arccos argument between -1 and 1", "ValueError")


elementwise("numpy.arccos", arccos_fn, kf, unit_oblige)
elementwise("numpy.angle", lambda x: T.fn("arg", (x,)), lambda k: "f")
smt.FN_AX["arg"] = lambda args, v: And(T.le(v, T.PI), T.gt(v, -T.PI))
smt.FN_AX["arccos"] = lambda args, v: And(T.le(v, T.PI), T.ge(v, 0))


@np_fn("numpy.round", "builtins.round")
def _round(I, args, kw):
    d = kw.get("decimals", args[1] if len(args) > 1 else None)
    if d is not None:
        c = sc(d).v.const()
        if c is None:
            raise Unsupported("symbolic rounding digits")
        if c != 0:
            s = T.const(Fraction(10) ** int(c))
            return ret(I, emap(I, lambda x: T.rnd(x * s) / s, lambda k: k, args[0]))
    a = lift(I, args[0])
    return ret(I, emap(I, T.rnd, lambda k: k, args[0]))


@np_fn("builtins.abs")
def _abs(I, args, kw):
    return ret(I, emap(I, T.pabs, lambda k: {"c": "f", "b": "i"}.get(k, k), args[0]))


def builtin_round(I, args, kw):
    r = _round(I, args, kw)
    if isinstance(r, Sc) and len(args) == 1:
        return Sc(r.v, "i", True)
    return r


FN["builtins.round"] = builtin_round


def math_fn(name, fn, k="f", pre=None):
    def g(I, args, kw):
        if pre:
            pre(I, args[0])
        v = lift(I, args[0])
        if isinstance(v, Arr):
            I.oblige(T.eq(prod(v.shape), 1), "math function of one number", "TypeError")
            v = Sc(at(v, [0] * v.ndim), v.k)
        if v.k == "c":
            raise RaiseEx("TypeError", "math function of a complex number")
        return Sc(fn(as_num(v.v, v.k)), k, True)
    FN["math." + name] = g


math_fn("floor", T.floor, "i")
math_fn("ceil", T.ceil, "i")
math_fn("trunc", T.trunc, "i")
math_fn("sqrt", T.sqrt, "f", lambda I, v: nonneg_oblige(I, v, "square root of a non-negative number"))
math_fn("exp", T.exp)
math_fn("log", T.log, "f", lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
math_fn("log2", lambda x: T.log(x) / T.log(T.const(2)), "f",
        lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
math_fn("log10", lambda x: T.log(x) / T.log(T.const(10)), "f",
        lambda I, v: pos_oblige(I, v, "logarithm of a positive number"))
math_fn("cos", T.cos)
math_fn("sin", T.sin)


@np_fn("math.isqrt")
def _isqrt(I, args, kw):
    n = need_int(args[0], "isqrt")
    I.oblige(T.ge(n, 0), "isqrt of a non-negative number", "ValueError")
    c = n.const()
    if c is not None:
        import math
        return Sc(T.const(math.isqrt(int(c))), "i", True)
    r = T.fn("isqrt", (n,), "int")
    return Sc(r, "i", True)


smt.FN_AX["isqrt"] = lambda args, v: And(T.ge(v, 0), T.le(v * v, args[0]), T.lt(args[0], (v + 1) * (v + 1)),
                                        T.le(v, args[0]))


@np_fn("math.gcd")
def _gcd(I, args, kw):
    raise Unsupported("math.gcd")


# ---- builtins
@np_fn("builtins.len")
def _len(I, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str)):
        return sc(len(v))
    if isinstance(v, Lst):
        return sc(len(I.get(v)))
    if isinstance(v, DictVal):
        return sc(len(v.d))
    if isinstance(v, RangeVal):
        return Sc(v.n, "i", True)
    if isinstance(v, Ref):
        return Sc(I.get(v).shape[0], "i", True)
    if isinstance(v, Sc):
        raise RaiseEx("TypeError", "len of a number at " + I.where)
    raise Unsupported("len")


@np_fn("builtins.range")
def _range(I, args, kw):
    vs = []
    for a in args:
        v = lift(I, a) if not isinstance(a, Sc) else a
        if isinstance(v, Arr):
            raise RaiseEx("TypeError", "range of an array")
        if v.k not in ("i", "b"):
            raise RaiseEx("TypeError", "range of a float at " + I.where)
        vs.append(as_num(v.v, v.k))
    if len(vs) == 1:
        lo, hi, st = T.ZERO, vs[0], T.ONE
    elif len(vs) == 2:
        lo, hi, st = vs[0], vs[1], T.ONE
    else:
        lo, hi, st = vs
    c = st.const()
    if c == 1:
        n = max0(I, hi - lo)
    elif c is not None and c > 0:
        n = max0(I, T.ceil((hi - lo) / st))
    elif c == -1:
        n = max0(I, lo - hi)
    elif c is not None and c < 0:
        n = max0(I, T.ceil((lo - hi) / (-st)))
    elif c == 0:
        raise RaiseEx("ValueError", "range step zero")
    else:
        I.oblige(T.gt(st, 0), "range step is positive", "ValueError")
        n = max0(I, -T.fdiv(lo - hi, st))
    return RangeVal(lo, st, n)


@np_fn("builtins.enumerate")
def _enum(I, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", sc(0))
    return EnumVal(args[0], sc(st).v)


@np_fn("builtins.zip")
def _zip(I, args, kw):
    return ZipVal(args)


@np_fn("builtins.reversed")
def _rev(I, args, kw):
    return RevVal(args[0])


@np_fn("builtins.int")
def _int(I, args, kw):
    v = lift(I, args[0])
    if isinstance(v, Arr):
        I.oblige(T.eq(prod(v.shape), 1), "int() of one element", "TypeError")
        v = Sc(at(v, [0] * v.ndim), v.k)
    if v.k == "c" and v.py:
        raise RaiseEx("TypeError", "int of a complex number at " + I.where)
    if v.k == "c":       # a numpy complex: the imaginary part is discarded
        v = Sc(T.re(as_num(v.v, v.k)), "f")
    x = as_num(v.v, v.k)
    if not x.is_int:
        x = resolve_tests(I, x)
    if not x.is_int and I.ent(T.ge(x, 0)):
        return Sc(T.floor(x), "i", True)
    return Sc(T.trunc(x), "i", True)


def resolve_tests(I, x):
    """x with the tests z == 0 that the path condition excludes resolved, also below mod."""
    pc = PR.Pc(()).add(*I.pc)
    x = PR.resolve_zero_tests(x, pc)
    for a in PR.top_atoms(x):
        if a.kind == "mod":
            y, n = resolve_tests(I, a.args[0]), a.args[1]
            if y is not a.args[0]:
                x = T.subst_atom(x, a, T.mod(y, n))
    return x


@np_fn("builtins.float")
def _float(I, args, kw):
    if isinstance(args[0], str):
        raise Unsupported("float of a string")
    v = lift(I, args[0])
    if isinstance(v, Arr):
        I.oblige(T.eq(prod(v.shape), 1), "float() of one element", "TypeError")
        v = Sc(at(v, [0] * v.ndim), v.k)
    if v.k == "c" and v.py:
        raise RaiseEx("TypeError", "float of a complex number at " + I.where)
    if v.k == "c":       # a numpy complex: the imaginary part is discarded
        v = Sc(T.re(as_num(v.v, v.k)), "f")
    return Sc(as_num(v.v, v.k), "f", True)


@np_fn("builtins.complex")
def _complex(I, args, kw):
    v = lift(I, args[0])
    w = lift(I, args[1]) if len(args) > 1 else sc(0)
    return Sc(as_num(v.v, v.k) + T.IMAG * as_num(w.v, w.k), "c", True)


@np_fn("builtins.bool")
def _bool(I, args, kw):
    return Sc(I.truth_formula(args[0]), "b", True)


@np_fn("builtins.str", "builtins.repr")
def _str(I, args, kw):
    return "<str>"


@np_fn("builtins.print")
def _print(I, args, kw):
    return None


def minmax_builtin(op):
    def g(I, args, kw):
        if kw:
            raise Unsupported("min/max with key")
        items = args
        if len(args) == 1:
            v = args[0]
            if type(v) is Ref:
                a = I.get(v)
                if a.ndim != 1:
                    raise RaiseEx("ValueError", "truth value of an array")
                return ret(I, do_minmax(I, a, op))
            n, f = I.iterable(v)
            c = n.const()
            if c is None:
                a = lift(I, v)
                return ret(I, do_minmax(I, a, op))
            items = [f(T.const(i)) for i in range(int(c))]
        if not items:
            raise RaiseEx("ValueError", "min of an empty sequence")
        vs = [lift(I, x) for x in items]
        vs2 = []
        for v in vs:
            if isinstance(v, Arr):
                I.oblige(T.eq(prod(v.shape), 1), "comparison of arrays", "ValueError")
                v = Sc(at(v, [0] * v.ndim), v.k)
            if v.k == "c":
                raise RaiseEx("TypeError", "ordering of complex numbers")
            vs2.append(v)
        # python min returns one of the operands: kind joins when they differ
        k = kmax(*[v.k for v in vs2])
        if len(set(v.k for v in vs2)) > 1 and k != "b":
            # the result has the kind of the selected operand; a float-kind
            # result is only int when decided
            best = pick(I, vs2, op)
            if best is not None:
                return best
        r = min_max(I, [as_num(v.v, v.k) for v in vs2], op)
        return Sc(r, k if k != "b" else "b", all(v.py for v in vs2))
    return g


def pick(I, vs, op):
    for v in vs:
        ok = True
        for w in vs:
            if w is v:
                continue
            f = T.le(as_num(v.v, v.k), as_num(w.v, w.k)) if op == "min" else \
                T.ge(as_num(v.v, v.k), as_num(w.v, w.k))
            if not I.ent(f):
                ok = False
                break
        if ok:
            return v
    return None


FN["builtins.min"] = minmax_builtin("min")
FN["builtins.max"] = minmax_builtin("max")


@np_fn("builtins.sum")
def _bsum(I, args, kw):
    n, f = I.iterable(args[0])
    c = n.const()
    start = args[1] if len(args) > 1 else sc(0)
    if c is not None:
        r = start
        for i in range(int(c)):
            r = I.binop("Add", r, f(T.const(i)))
        return r
    return I.binop("Add", start, ret(I, do_sum(I, lift(I, args[0]))))


@np_fn("builtins.any", "builtins.all")
def _bany(I, args, kw):
    raise Unsupported("builtin any/all")


def bi_any(I, args, kw):
    return Sc(quant(I, to_1d(I, args[0]), True), "b", True)


def bi_all(I, args, kw):
    return Sc(quant(I, to_1d(I, args[0]), False), "b", True)


FN["builtins.any"] = bi_any
FN["builtins.all"] = bi_all


@np_fn("builtins.tuple")
def _tuple(I, args, kw):
    return tuple(I.iter_concrete(args[0])) if args else ()


@np_fn("builtins.list")
def _list(I, args, kw):
    if not args:
        return I.lst(())
    if isinstance(args[0], RangeVal) and args[0].n.const() is None:
        return I.mk(lift(I, args[0]))
    return I.lst(I.iter_concrete(args[0]))


@np_fn("builtins.dict")
def _dict(I, args, kw):
    if args:
        raise Unsupported("dict()")
    return DictVal(dict(kw))


@np_fn("builtins.slice")
def _slice(I, args, kw):
    if len(args) == 1:
        return SliceVal(None, args[0], None)
    return SliceVal(*(list(args) + [None] * (3 - len(args))))


@np_fn("builtins.hasattr")
def _hasattr(I, args, kw):
    o, n = args
    if isinstance(o, Obj):
        ov = I.get(o)
        return sc(n in ov.attrs or ov.cls.lookup(n) is not None)
    try:
        I.getattr(o, n)
        return sc(True)
    except RaiseEx:
        return sc(False)


@np_fn("builtins.getattr")
def _getattr(I, args, kw):
    return I.getattr(args[0], args[1])


@np_fn("builtins.type")
def _type(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return I.get(v).cls
    if isinstance(v, Sc):
        if v.py:
            return Ext("builtins." + {"b": "bool", "i": "int", "f": "float", "c": "complex"}[v.k])
        return Ext("numpy." + {"b": "bool_", "i": "int64", "f": "float64", "c": "complex128"}[v.k])
    if isinstance(v, str):
        return Ext("builtins.str")
    if isinstance(v, tuple):
        return Ext("builtins.tuple")
    if isinstance(v, Lst):
        return Ext("builtins.list")
    if isinstance(v, Ref):
        return Ext("numpy.ndarray")
    raise Unsupported("type()")


@np_fn("builtins.isinstance")
def _isinstance(I, args, kw):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    return sc(any(isinst(I, v, x) for x in ts))


def isinst(I, v, t):
    if isinstance(t, ClassVal):
        return isinstance(v, Obj) and t in I.get(v).cls.mro()
    n = t.name if isinstance(t, Ext) else ""
    s = n.split(".")[-1]
    if isinstance(v, Sc):
        if v.py:
            return s in {"b": ("bool", "int", "Number", "Integral", "Real"), "i": ("int", "Number", "Integral", "Real"),
                         "f": ("float", "Number", "Real"), "c": ("complex", "Number")}[v.k]
        return s in {"b": ("bool_", "generic"), "i": ("int64", "integer", "number", "generic", "signedinteger", "Integral", "Number", "Real"),
                     "f": ("float64", "floating", "float", "number", "generic", "inexact", "Real", "Number"),
                     "c": ("complex128", "complexfloating", "complex", "number", "generic", "inexact", "Number")}[v.k]
    if isinstance(v, Lst):
        return s == "list"
    if isinstance(v, tuple):
        return s == "tuple"
    if isinstance(v, str):
        return s == "str"
    if v is None:
        return s == "NoneType"
    if isinstance(v, Ref) and not isinstance(v, Obj):
        return s == "ndarray"
    if isinstance(v, DictVal):
        return s == "dict"
    if isinstance(v, Obj):
        return False
    raise Unsupported("isinstance")


@np_fn("builtins.callable")
def _callable(I, args, kw):
    return sc(isinstance(args[0], (FuncVal, BoundMethod, ClassVal, Ext)))


@np_fn("builtins.divmod")
def _divmod(I, args, kw):
    return (I.binop("FloorDiv", args[0], args[1]), I.binop("Mod", args[0], args[1]))


@np_fn("builtins.pow", "numpy.power")
def _pow(I, args, kw):
    return I.binop("Pow", args[0], args[1])


def opfn(op):
    return lambda I, args, kw: I.binop(op, args[0], args[1])


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"),
               ("true_divide", "Div"), ("floor_divide", "FloorDiv"), ("remainder", "Mod")):
    FN["numpy." + _n] = opfn(_o)


def cmpfn(op):
    return lambda I, args, kw: compare(I, op, args[0], args[1])


for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"),
               ("greater", "Gt"), ("greater_equal", "GtE")):
    FN["numpy." + _n] = cmpfn(_o)


@np_fn("numpy.logical_and")
def _land(I, args, kw):
    return logical(I, And, *args)


@np_fn("numpy.logical_or")
def _lor(I, args, kw):
    return logical(I, Or, *args)


@np_fn("numpy.logical_not")
def _lnot(I, args, kw):
    return logical(I, Not, *args)


@np_fn("numpy.minimum")
def _minimum(I, args, kw):
    return ret(I, emap(I, T.pmin, kmax, *args))


@np_fn("numpy.hypot")
def _hypot(I, args, kw):
    return ret(I, emap(I, lambda x, y: T.sqrt(x * x + y * y), lambda *k: "f", *args))


@np_fn("numpy.maximum")
def _maximum(I, args, kw):
    return ret(I, emap(I, T.pmax, kmax, *args))


@np_fn("numpy.clip")
def _clip(I, args, kw):
    a, lo, hi = args[:3]
    r = emap(I, lambda x, l, h: T.pmin(T.pmax(x, l), h), kmax, a, lo, hi)
    return ret(I, r)


# ---- construction
def dt(kw, args, pos, default="f"):
    d = kw.get("dtype", args[pos] if len(args) > pos else None)
    k = dtype_kind(d)
    return default if k is None else k


@np_fn("numpy.zeros", "numpy.empty")
def _zeros(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    k = dt(kw, args, 1)
    return I.mk(Arr(sh, k, ones_body(k, 0)))


def _empty(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    return I.mk(I.fresh_arr("empty", sh, dt(kw, args, 1)))


FN["numpy.empty"] = _empty


@np_fn("numpy.ones")
def _ones(I, args, kw):
    sh = shape_arg(I, args[0] if args else kw["shape"])
    k = dt(kw, args, 1)
    return I.mk(Arr(sh, k, ones_body(k, 1)))


@np_fn("numpy.full")
def _full(I, args, kw):
    sh = shape_arg(I, args[0])
    v = lift(I, args[1])
    if not isinstance(v, Sc):
        raise Unsupported("full of an array")
    k = dt(kw, args, 2, v.k)
    return I.mk(Arr(sh, k, cast_body(I, v, k)))


@np_fn("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like")
def _zl(I, args, kw):
    raise Unsupported("like")


def like(val):
    def g(I, args, kw):
        a = lift(I, args[0])
        k = dt(kw, args, 1, a.k)
        if isinstance(a, Sc):
            return Sc(ones_body(k, val), k)
        return I.mk(Arr(a.shape, k, ones_body(k, val)))
    return g


FN["numpy.zeros_like"] = like(0)
FN["numpy.ones_like"] = like(1)
FN["numpy.empty_like"] = lambda I, args, kw: I.mk(I.fresh_arr("empty", I.get(args[0]).shape, dt(kw, args, 1, I.get(args[0]).k)))


@np_fn("numpy.eye")
def _eye(I, args, kw):
    n = shape_dim(I, args[0])
    return I.mk(Arr((n, n), "f", T.ite(T.eq(IDX(0), IDX(1)), 1, 0)))


@np_fn("numpy.arange")
def _arange(I, args, kw):
    pos = list(args)
    dtype = kw.get("dtype")
    if len(pos) == 4:
        dtype = pos.pop()
    vs = [lift(I, a) for a in pos]
    vs2 = []
    for v in vs:
        if isinstance(v, Arr):
            I.oblige(T.eq(prod(v.shape), 1), "arange argument is one number", "TypeError")
            v = Sc(at(v, [0] * v.ndim), v.k)
        if v.k == "c":
            if v.v.is_real:
                v = Sc(v.v, "f")
            else:
                raise Unsupported("arange of a complex number")
        vs2.append(v)
    step = lift(I, kw["step"]) if "step" in kw else None
    if "start" in kw:
        raise Unsupported("arange start=")
    if len(vs2) == 1:
        lo, hi, st = sc(0), vs2[0], step or sc(1)
    elif len(vs2) == 2:
        lo, hi, st = vs2[0], vs2[1], step or sc(1)
    else:
        lo, hi, st = vs2
    k = kmax("i", lo.k, hi.k, st.k)
    l, h, s = [as_num(x.v, x.k) for x in (lo, hi, st)]
    c = s.const()
    if c == 1:
        n = max0(I, T.ceil(h - l))
    elif c == 0:
        raise RaiseEx("ZeroDivisionError", "arange step")
    elif c is not None:
        n = max0(I, T.ceil((h - l) / s))
    else:
        I.oblige(T.ne(s, 0), "arange step is non-zero", "ZeroDivisionError")
        if l.is_int and h.is_int and s.is_int and I.ent(T.gt(s, 0)):
            n = max0(I, -T.fdiv(l - h, s))
        else:
            n = max0(I, T.ceil((h - l) / s))
    k2 = dtype_kind(dtype)
    body = l + s * IDX(0)
    if k2 is not None and k2 != k:
        body = cast_body(I, Arr((n,), k, body), k2)
        k = k2
    return I.mk(Arr((n,), k, body))


@np_fn("numpy.linspace")
def _linspace(I, args, kw):
    a, b = lift(I, args[0]), lift(I, args[1])
    if not (isinstance(a, Sc) and isinstance(b, Sc)):
        raise Unsupported("linspace of arrays")
    n = need_int(kw.get("num", args[2] if len(args) > 2 else sc(50)), "linspace count at " + I.where)
    I.oblige(T.ge(n, 0), "linspace count is non-negative", "ValueError")
    ep = kw.get("endpoint")
    x, y = as_num(a.v, a.k), as_num(b.v, b.k)
    i = IDX(0)
    if ep is not None and sc(ep).v is FALSE:
        body = x + i * (y - x) / n
    else:
        c = n.const()
        step = T.quotient(y - x, n - 1)
        if step is None:
            step = (y - x) / (n - 1) if c != 1 else P(0)
        if c == 1 or (c is None and I.ent(T.le(n, 1))):
            body = x
        elif I.ent(T.ge(n, 2)):
            body = x + i * step
        else:
            body = T.ite(T.ge(n, 2), x + i * step, x)
    return I.mk(Arr((n,), kmax("f", a.k, b.k), body))


@np_fn("numpy.logspace")
def _logspace(I, args, kw):
    r = _linspace(I, args, {k: v for k, v in kw.items() if k != "base"})
    base = sc(kw.get("base", 10)).v
    a = I.get(r)
    return I.mk(Arr(a.shape, "f", T.exp(a.body * T.log(base))))


@np_fn("numpy.geomspace")
def _geomspace(I, args, kw):
    a, b = lift(I, args[0]), lift(I, args[1])
    pos_oblige(I, a, "geomspace start positive")
    pos_oblige(I, b, "geomspace stop positive")
    r = I.get(_linspace(I, [Sc(T.log(body_of(a)), "f"), Sc(T.log(body_of(b)), "f")] + list(args[2:]), kw))
    return I.mk(Arr(r.shape, "f", T.exp(r.body)))


@np_fn("numpy.array")
def _array(I, args, kw):
    a = lift(I, args[0])
    k = dtype_kind(kw.get("dtype", args[1] if len(args) > 1 else None))
    if isinstance(a, Masked):
        raise Unsupported("array of a masked selection")
    if isinstance(a, Sc):
        if "ndmin" in kw:
            raise Unsupported("ndmin")
        k = k or a.k
        return Sc(cast_body(I, a, k), k)
    k = k or a.k
    return I.mk(Arr(a.shape, k, cast_body(I, a, k)))


@np_fn("numpy.asarray")
def _asarray(I, args, kw):
    v = args[0]
    k = dtype_kind(kw.get("dtype", args[1] if len(args) > 1 else None))
    if type(v) is Ref and (k is None or I.get(v).k == k):
        return v
    if isinstance(v, Masked):
        return v
    return _array(I, args, kw)


@np_fn("numpy.copy")
def _copy(I, args, kw):
    return _array(I, args, {})


@np_fn("numpy.atleast_1d")
def _atleast1(I, args, kw):
    v = lift(I, args[0])
    if isinstance(v, Sc):
        return I.mk(Arr((1,), v.k, v.v))
    return args[0]


@np_fn("numpy.float64", "numpy.double")
def _f64(I, args, kw):
    v = lift(I, args[0])
    if isinstance(v, Arr):
        return I.mk(Arr(v.shape, "f", cast_body(I, v, "f")))
    return Sc(cast_body(I, v, "f"), "f")


@np_fn("numpy.int64", "numpy.int_", "numpy.intp", "numpy.int32")
def _i64(I, args, kw):
    v = lift(I, args[0])
    if isinstance(v, Arr):
        return I.mk(Arr(v.shape, "i", cast_body(I, v, "i")))
    return Sc(cast_body(I, v, "i"), "i")


@np_fn("numpy.shape")
def _shape(I, args, kw):
    return getattr(I, args[0], "shape")


@np_fn("numpy.size")
def _size(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc):
        return sc(1)
    return Sc(prod(a.shape), "i", True)


@np_fn("numpy.ndim")
def _ndim(I, args, kw):
    a = lift(I, args[0])
    return sc(0 if isinstance(a, Sc) else a.ndim)


@np_fn("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.append", "numpy.column_stack", "numpy.stack")
def _cat(I, args, kw):
    raise Unsupported("join")


def seq(I, v):
    if isinstance(v, (tuple, Lst)):
        return list(v if isinstance(v, tuple) else I.get(v))
    if isinstance(v, Ref):
        return I.iter_concrete(v)
    raise Unsupported("sequence of arrays")


def _concatenate(I, args, kw):
    parts = [lift(I, x) for x in seq(I, args[0])]
    if any(isinstance(p, Sc) for p in parts):
        raise RaiseEx("ValueError", "zero-dimensional arrays cannot be concatenated")
    ax = kw.get("axis", args[1] if len(args) > 1 else sc(0))
    if ax is None:
        parts = [ravel_arr(I, p) for p in parts]
        c = 0
    else:
        c = int(sc(ax).v.const())
    if c < 0:
        c += parts[0].ndim
    return I.mk(join(I, parts, c))


def _hstack(I, args, kw):
    parts = [to_1d(I, x) for x in seq(I, args[0])]
    return I.mk(join(I, parts, 0 if parts[0].ndim == 1 else 1))


def _vstack(I, args, kw):
    parts = []
    for x in seq(I, args[0]):
        a = to_1d(I, x)
        if a.ndim == 1:
            a = Arr((1, a.shape[0]), a.k, at(a, [IDX(1)]))
        parts.append(a)
    return I.mk(join(I, parts, 0))


def _append(I, args, kw):
    if "axis" in kw or len(args) > 2:
        return _concatenate(I, [(args[0], args[1])], {"axis": kw.get("axis", args[2] if len(args) > 2 else None)})
    parts = [ravel_arr(I, to_1d(I, x)) for x in args[:2]]
    return I.mk(join(I, parts, 0))


FN["numpy.concatenate"] = _concatenate
FN["numpy.hstack"] = _hstack
FN["numpy.vstack"] = _vstack
FN["numpy.append"] = _append
FN["numpy.column_stack"] = lambda I, args, kw: concat_c(I, tuple(seq(I, args[0])))


def _stack(I, args, kw):
    ax = get_axis(I, kw, args, 1, 2, 0)
    a = from_list(I, seq(I, args[0]))
    if ax == 1:
        a = transpose_arr(a)
    return I.mk(a)


FN["numpy.stack"] = _stack


@np_fn("numpy.ravel")
def _ravel(I, args, kw):
    return call_method(I, args[0] if isinstance(args[0], (Ref, Sc)) else I.mk(lift(I, args[0])), "ravel", args[1:], kw)


@np_fn("numpy.reshape")
def _reshape(I, args, kw):
    return call_method(I, args[0], "reshape", args[1:], kw)


@np_fn("numpy.transpose")
def _transpose(I, args, kw):
    return getattr(I, args[0], "T")


@np_fn("numpy.squeeze")
def _squeeze(I, args, kw):
    return call_method(I, args[0], "squeeze", args[1:], kw)


@np_fn("numpy.repeat")
def _repeat(I, args, kw):
    a = to_1d(I, args[0])
    r = args[1] if len(args) > 1 else kw["repeats"]
    rv = lift(I, r)
    if isinstance(rv, Arr):
        raise Unsupported("repeat with an array of counts")
    n = need_int(rv, "repeat count")
    I.oblige(T.ge(n, 0), "repeat count is non-negative", "ValueError")
    ax = get_axis(I, kw, args, 2, a.ndim)
    if ax is None:
        a = ravel_arr(I, a)
        ax = 0
    c = n.const()
    ix = [IDX(d) for d in range(a.ndim)]
    if a.shape[ax].const() == 1:
        ix[ax] = T.ZERO
    elif c != 1:
        ix[ax] = T.fdiv(IDX(ax), n)
    sh = list(a.shape)
    sh[ax] = sh[ax] * n
    return I.mk(Arr(sh, a.k, at(a, ix)))


@np_fn("numpy.tile")
def _tile(I, args, kw):
    a = to_1d(I, args[0])
    reps = args[1]
    if isinstance(reps, (tuple, Lst)):
        rs = [need_int(x, "tile count") for x in seq(I, reps)]
    else:
        rs = [need_int(reps, "tile count")]
    nd = max(a.ndim, len(rs))
    rs = [T.ONE] * (nd - len(rs)) + rs
    dims = [T.ONE] * (nd - a.ndim) + list(a.shape)
    ix = []
    for d in range(nd):
        if d < nd - a.ndim:
            continue
        if dims[d].const() == 1:
            ix.append(T.ZERO)
        elif rs[d].const() == 1:
            ix.append(IDX(d))
        else:
            ix.append(T.mod(IDX(d), dims[d]))
    return I.mk(Arr([x * y for x, y in zip(dims, rs)], a.k, at(a, ix)))


@np_fn("numpy.meshgrid")
def _meshgrid(I, args, kw):
    x, y = to_1d(I, args[0]), to_1d(I, args[1])
    if kw.get("indexing", "xy") != "xy":
        sh = (x.shape[0], y.shape[0])
        return I.lst((I.mk(Arr(sh, x.k, at(x, [IDX(0)]))), I.mk(Arr(sh, y.k, at(y, [IDX(1)])))))
    sh = (y.shape[0], x.shape[0])
    return I.lst((I.mk(Arr(sh, x.k, at(x, [IDX(1)]))), I.mk(Arr(sh, y.k, at(y, [IDX(0)])))))


@np_fn("numpy.rot90")
def _rot90(I, args, kw):
    a = lift(I, args[0])
    k = int(sc(kw.get("k", args[1] if len(args) > 1 else 1)).v.const()) % 4
    r, c = a.shape
    i, j = IDX(0), IDX(1)
    if k == 0:
        return I.mk(a)
    if k == 1:
        return I.mk(Arr((c, r), a.k, at(a, [j, c - 1 - i])))
    if k == 2:
        return I.mk(Arr((r, c), a.k, at(a, [r - 1 - i, c - 1 - j])))
    return I.mk(Arr((c, r), a.k, at(a, [r - 1 - j, i])))


def flip_axis(a, d):
    ix = [IDX(j) for j in range(a.ndim)]
    ix[d] = a.shape[d] - 1 - IDX(d)
    return Arr(a.shape, a.k, at(a, ix))


@np_fn("numpy.flipud")
def _flipud(I, args, kw):
    return I.mk(flip_axis(lift(I, args[0]), 0))


@np_fn("numpy.fliplr")
def _fliplr(I, args, kw):
    return I.mk(flip_axis(lift(I, args[0]), 1))


@np_fn("numpy.flip")
def _flip(I, args, kw):
    a = lift(I, args[0])
    ax = get_axis(I, kw, args, 1, a.ndim)
    for d in ([ax] if ax is not None else range(a.ndim)):
        a = flip_axis(a, d)
    return I.mk(a)


@np_fn("numpy.roll")
def _roll(I, args, kw):
    a = to_1d(I, args[0])
    k = need_int(args[1] if len(args) > 1 else kw["shift"], "roll shift")
    ax = get_axis(I, kw, args, 2, a.ndim)
    if ax is None:
        if a.ndim != 1:
            raise Unsupported("roll of a flattened array")
        ax = 0
    ix = [IDX(d) for d in range(a.ndim)]
    ix[ax] = T.mod(IDX(ax) - k, a.shape[ax])
    return I.mk(Arr(a.shape, a.k, at(a, ix)))


@np_fn("numpy.pad")
def _pad(I, args, kw):
    raise Unsupported("numpy.pad")


@np_fn("numpy.diff")
def _diff(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc):
        raise RaiseEx("ValueError", "diff of a scalar")
    if len(args) > 1 or "n" in kw:
        raise Unsupported("diff order")
    ax = get_axis(I, kw, args, 2, a.ndim, -1)
    ix = [IDX(d) for d in range(a.ndim)]
    ix2 = list(ix)
    ix2[ax] = ix2[ax] + 1
    sh = list(a.shape)
    sh[ax] = max0(I, sh[ax] - 1)
    return I.mk(Arr(sh, kid(a.k), at_num(a, ix2) - at_num(a, ix)))


@np_fn("numpy.cumsum")
def _cumsum(I, args, kw):
    a = lift(I, args[0])
    ax = get_axis(I, kw, args, 1, a.ndim)
    if ax is None:
        a = ravel_arr(I, a)
        ax = 0
    v = T.fresh("b")
    body = T.close_bind("sum", IDX(ax) + 1, v, T.subst(as_num(a.body, a.k), {T.the_atom(IDX(ax)): v}))
    return I.mk(Arr(a.shape, kid(a.k), body))


# ---- reductions
@np_fn("numpy.sum")
def _sum(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, (Sc, Masked)):
        return do_sum(I, a)
    return ret(I, do_sum(I, a, get_axis(I, kw, args, 1, a.ndim)))


@np_fn("numpy.prod")
def _prod(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Arr) and a.ndim == 1 and a.shape[0].const() is not None:
        r = T.ONE
        for i in range(int(a.shape[0].const())):
            r = r * at_num(a, [T.const(i)])
        return Sc(r, kid(a.k))
    raise Unsupported("prod")


@np_fn("numpy.mean", "numpy.average")
def _mean(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc):
        return a
    if isinstance(a, Masked):
        raise Unsupported("mean of a masked selection")
    ax = get_axis(I, kw, args, 1, a.ndim)
    n = size_of(I, a, ax)
    I.oblige(T.ge(n, 1), "mean of a non-empty array")
    return ret(I, emap(I, lambda x: x / n, lambda k: kmax("f", k), do_sum(I, a, ax)))


def var_of(I, args, kw):
    a = lift(I, args[0])
    ax = get_axis(I, kw, args, 1, a.ndim)
    if ax is not None and a.ndim > 1:
        raise Unsupported("variance along an axis")
    ddof = sc(kw.get("ddof", 0)).v
    m = _mean(I, [args[0]], {})
    d = emap(I, lambda x, y: T.pabs(x - y) ** 2, lambda p, q: "f", a, m)
    n = prod(a.shape)
    s = do_sum(I, d)
    return Sc(s.v / (n - ddof), "f")


@np_fn("numpy.var")
def _var(I, args, kw):
    return var_of(I, args, kw)


@np_fn("numpy.std")
def _std(I, args, kw):
    r = T.sqrt(var_of(I, args, kw).v)
    a = lift(I, args[0])
    if isinstance(a, Arr) and a.ndim == 1 and isinstance(a.body, Poly):
        # a fresh random draw of two or more values is not constant (almost surely)
        els = [x for x in T.top_monomial_atoms(a.body)]
        if len(els) == 1 and els[0].kind == "elem" and str(els[0].args[0]).split("!")[0] in RANDOM_KINDS and \
                all(len(m) <= 1 and (not m or m[0][1] == 1) for m in a.body.t):
            USED.add("random draws of two or more values are not all equal (almost surely)")
            I.assume(Or(T.lt(a.shape[0], 2), T.gt(r, 0)))
    return Sc(r, "f")


RANDOM_KINDS = ("rand", "randn", "normal")


@np_fn("numpy.max")
def _max(I, args, kw):
    a = lift(I, args[0])
    return ret(I, do_minmax(I, a, "max", get_axis(I, kw, args, 1, a.ndim) if isinstance(a, Arr) else None))


@np_fn("numpy.min")
def _min(I, args, kw):
    a = lift(I, args[0])
    return ret(I, do_minmax(I, a, "min", get_axis(I, kw, args, 1, a.ndim) if isinstance(a, Arr) else None))


@np_fn("numpy.any")
def _any(I, args, kw):
    a = lift(I, args[0])
    if kw or len(args) > 1:
        raise Unsupported("any with axis")
    return reduce_any(I, args[0])


@np_fn("numpy.all")
def _all(I, args, kw):
    a = lift(I, args[0])
    if kw or len(args) > 1:
        raise Unsupported("all with axis")
    if isinstance(a, Sc):
        return Sc(as_bool(a.v, a.k), "b")
    return Sc(quant(I, a, False), "b")


@np_fn("numpy.unique")
def _unique(I, args, kw):
    """only for an array whose entries are provably all equal: one value, or none"""
    a = lift(I, args[0])
    if kw or len(args) > 1 or not isinstance(a, Arr) or a.ndim != 1 or a.k == "b":
        raise Unsupported("numpy.unique with options")
    n = P(a.shape[0])
    body = T.eq(at_num(a, [IDX(0)]), at_num(a, [P(0)]))
    f = quant(I, Arr(a.shape, "b", body), False)
    if not I.ent(f):
        raise Unsupported("numpy.unique of values not known to be equal")
    return I.mk(Arr([T.pmin(n, P(1))], kid(a.k), at_num(a, [IDX(0)])))


@np_fn("numpy.allclose")
def _allclose(I, args, kw):
    rtol = sc(kw.get("rtol", args[2] if len(args) > 2 else 1e-5)).v
    atol = sc(kw.get("atol", args[3] if len(args) > 3 else 1e-8)).v
    x, y = lift(I, args[0]), lift(I, args[1])
    shape, fns = broadcast(I, [x, y])
    ix = [IDX(i) for i in range(len(shape))]
    a, b = as_num(fns[0](ix), x.k), as_num(fns[1](ix), y.k)
    f = T.le(T.pabs(a - b), atol + rtol * T.pabs(b))
    return Sc(quant(I, Arr(shape, "b", f), False), "b", True)


@np_fn("numpy.isnan", "numpy.isinf")
def _isnan(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc):
        return Sc(FALSE, "b")
    return I.mk(Arr(a.shape, "b", FALSE))


@np_fn("numpy.isfinite")
def _isfinite(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc):
        return Sc(TRUE, "b")
    return I.mk(Arr(a.shape, "b", TRUE))


@np_fn("numpy.isreal")
def _isreal(I, args, kw):
    a = lift(I, args[0])
    f = lambda b: TRUE if (isinstance(b, Formula) or b.is_real) else T.eq(T.im(b), 0)
    if isinstance(a, Sc):
        return Sc(f(a.v), "b")
    return I.mk(Arr(a.shape, "b", f(a.body)))


@np_fn("numpy.iscomplexobj")
def _iscobj(I, args, kw):
    return sc(lift(I, args[0]).k == "c")


@np_fn("numpy.isrealobj")
def _isrobj(I, args, kw):
    return sc(lift(I, args[0]).k != "c")


@np_fn("numpy.where")
def _where(I, args, kw):
    if len(args) == 1:
        return _nonzero(I, args, kw)
    c, x, y = [lift(I, v) for v in args]
    k = kmax(x.k, y.k)
    if isinstance(c, Sc):
        c = Arr((), c.k, c.v)
    shape, fns = broadcast(I, [c, x, y])
    ix = [IDX(i) for i in range(len(shape))]
    cond = as_bool(fns[0](ix), c.k)
    if k == "b":
        return ret(I, Arr(shape, "b", T.fite(cond, fns[1](ix), fns[2](ix))))
    return ret(I, Arr(shape, k, T.ite(cond, as_num(fns[1](ix), x.k), as_num(fns[2](ix), y.k))))


@np_fn("numpy.nonzero", "numpy.flatnonzero")
def _nonzero(I, args, kw):
    a = lift(I, args[0])
    m = Arr(a.shape, "b", as_bool(a.body, a.k))
    return tuple(Opaque("nonzero", (m, i)) for i in range(a.ndim))


# ---- results taken as arbitrary: only the type and shape are known (and, for a root, the equation it solves)
@np_fn("scipy.interpolate.splrep")
def _splrep(I, args, kw):
    USED.add("scipy.interpolate.splrep accepts its samples (at least four, increasing)")
    return Opaque("spline", None)


@np_fn("scipy.interpolate.splev")
def _splev(I, args, kw):
    if not (isinstance(args[1], Opaque) and args[1].tag == "spline") or len(args) > 2 or kw:
        raise Unsupported("splev of %r" % (args[1],))
    a = lift(I, args[0])
    if isinstance(a, Sc):
        return Sc(I.fresh_scalar("spl", "f"), "f", True)
    if isinstance(a, Masked):
        raise Unsupported("splev at selected points")
    return I.mk(I.fresh_arr("spl", a.shape, "f"))


@np_fn("scipy.optimize.newton", "scipy.optimize.brenth", "scipy.optimize.brentq")
def _newton(I, args, kw):
    USED.add("scipy.optimize root finders converge")
    r = Sc(I.fresh_scalar("root", "f"), "f", True)
    v = lift(I, I.call(args[0], [r], {}))
    if not isinstance(v, Sc):
        raise Unsupported("root of an array function")
    I.assume(T.eq(as_num(v.v, v.k), 0))
    return r


@np_fn("numpy.roots")
def _roots(I, args, kw):
    a = lift(I, args[0])
    if not isinstance(a, Arr) or a.ndim != 1 or a.shape[0].const() != 3 or a.k == "c":
        raise Unsupported("roots")
    p, q, r = [as_num(at(a, [i]), a.k) for i in range(3)]
    d = q * q - 4 * p * r
    if not (I.ent(T.ne(p, 0)) and I.ent(T.ne(r, 0)) and I.ent(T.ge(d, 0))):
        raise Unsupported("roots of a degenerate quadratic")
    u, v = I.fresh_scalar("root", "f"), I.fresh_scalar("root", "f")
    I.assume(And(T.eq(p * (u + v), -q), T.eq(p * u * v, r), T.eq(p * u * u + q * u + r, 0), T.eq(p * v * v + q * v + r, 0)))
    if I.ent(T.gt(d, 0)):
        I.assume(T.ne(u, v))
    return I.mk(Arr((P(2),), "f", T.ite(T.eq(IDX(0), 0), u, v)))


@np_fn("numpy.dot", "numpy.matmul")
def _dot(I, args, kw):
    x, y = lift(I, args[0]), lift(I, args[1])
    if isinstance(x, Sc) or isinstance(y, Sc):
        return I.binop("Mult", args[0], args[1])
    k = kmax("i", x.k, y.k)
    n = x.shape[-1]
    m = y.shape[0] if y.ndim == 1 else y.shape[-2]
    if n is not m:
        I.oblige(T.eq(n, m), "dot product lengths agree", "ValueError")
    v = T.fresh("b")
    if x.ndim == 1 and y.ndim == 1:
        return Sc(T.close_bind("sum", n, v, at_num(x, [v]) * at_num(y, [v])), k)
    if x.ndim == 2 and y.ndim == 1:
        return I.mk(Arr((x.shape[0],), k, T.close_bind("sum", n, v, at_num(x, [IDX(0), v]) * at_num(y, [v]))))
    if x.ndim == 1 and y.ndim == 2:
        return I.mk(Arr((y.shape[1],), k, T.close_bind("sum", n, v, at_num(x, [v]) * at_num(y, [v, IDX(0)]))))
    if x.ndim == 2 and y.ndim == 2:
        return I.mk(Arr((x.shape[0], y.shape[1]), k,
                        T.close_bind("sum", n, v, at_num(x, [IDX(0), v]) * at_num(y, [v, IDX(1)]))))
    raise Unsupported("dot")


@np_fn("numpy.vdot")
def _vdot(I, args, kw):
    return _dot(I, [unary(I, args[0], T.conj, kid), args[1]], {})


@np_fn("numpy.outer")
def _outer(I, args, kw):
    x, y = [ravel_arr(I, to_1d(I, a)) for a in args[:2]]
    return I.mk(Arr((x.shape[0], y.shape[0]), kmax("i", x.k, y.k), at_num(x, [IDX(0)]) * at_num(y, [IDX(1)])))


@np_fn("numpy.linalg.norm")
def _norm(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Masked):
        raise Unsupported("norm of a masked selection")
    o = args[1] if len(args) == 2 else kw.get("ord")
    two = isinstance(a, Arr) and a.ndim == 1 and o is not None and sc(o).v is not None and P(sc(o).v).const() == 2
    if len(args) > 2 or any(k != "ord" for k in kw) or (o is not None and not two):
        raise Unsupported("norm with options")
    s = do_sum(I, emap(I, lambda x: T.ppow(T.pabs(x), 2), lambda k: "f", a))
    return Sc(T.sqrt(s.v), "f")


@np_fn("numpy.convolve")
def _convolve(I, args, kw):
    x, y = to_1d(I, args[0]), to_1d(I, args[1])
    mode = kw.get("mode", args[2] if len(args) > 2 else "full")
    n, m = x.shape[0], y.shape[0]
    I.oblige(And(T.ge(n, 1), T.ge(m, 1)), "convolve of non-empty arrays", "ValueError")
    if mode != "full":
        raise Unsupported("convolve mode")
    v = T.fresh("b")
    i = IDX(0)
    body = T.close_bind("sum", n, v, T.ite(And(T.ge(i - v, 0), T.lt(i - v, m)), at_num(x, [v]) * at_num(y, [i - v]), 0))
    return I.mk(Arr((n + m - 1,), kmax("i", x.k, y.k), body))


@np_fn("numpy.spacing")
def _spacing(I, args, kw):
    v = lift(I, args[0])
    if isinstance(v, Sc) and v.v.const() == 1:
        return Sc(P(Fraction(1, 2 ** 52)), "f")
    raise Unsupported("spacing")


@np_fn("numpy.finfo")
def _finfo(I, args, kw):
    return Opaque("finfo")


@np_fn("numpy.sort")
def _sort(I, args, kw):
    a = lift(I, args[0])
    if isinstance(a, Sc) or a.ndim != 1 or kw or len(args) > 1 or a.k not in "if":
        raise Unsupported("sort of this argument")
    n = a.shape[0]
    i = T.fresh("i")
    x, y = at_num(a, [i]), at_num(a, [i + 1])
    if smt.entails(list(I.pc) + [T.ge(i, 0), T.lt(i, n - 1)], T.le(x, y)) is True:
        return I.mk(Arr(a.shape, a.k, a.body))
    v = T.fresh("b")
    return I.mk(Arr(a.shape, a.k, T.close_bind("sort", n, v, at_num(a, [v]), (IDX(0),))))


# ---- fourier
def fft_body(I, a, ax, n, inverse=False):
    ln = a.shape[ax]
    k = IDX(ax)
    v = T.fresh("b")
    body = T.subst(as_num(a.body, a.k), {T.the_atom(IDX(ax)): v})
    if n is not ln and not I.ent(T.le(n, ln)):
        body = T.ite(T.lt(v, ln), body, 0)
    r = T.close_bind("dft", n, v, body, (-k if inverse else k,))
    if inverse:
        r = r / n
    sh = list(a.shape)
    sh[ax] = n
    return Arr(sh, "c", r)


def fftfn(inverse):
    def g(I, args, kw):
        a = lift(I, args[0])
        if isinstance(a, Sc):
            raise RaiseEx("ValueError", "fft of a scalar")
        nn = kw.get("n", args[1] if len(args) > 1 else None)
        ax = get_axis(I, kw, args, 2, a.ndim, -1)
        if nn is None:
            n = a.shape[ax]
        else:
            n = need_int(nn, "fft length at " + I.where)
        I.oblige(T.ge(n, 1), "fft of at least one point", "ValueError")
        return I.mk(fft_body(I, a, ax, n, inverse))
    return g


FN["numpy.fft.fft"] = fftfn(False)
FN["numpy.fft.ifft"] = fftfn(True)


def shiftfn(sign):
    def g(I, args, kw):
        a = lift(I, args[0])
        axs = kw.get("axes", args[1] if len(args) > 1 else None)
        if axs is None:
            ds = list(range(a.ndim))
        elif isinstance(axs, (tuple, Lst)):
            ds = [int(sc(x).v.const()) for x in seq(I, axs)]
        else:
            ds = [int(sc(axs).v.const())]
        ix = [IDX(d) for d in range(a.ndim)]
        for d in ds:
            d = d % a.ndim
            n = a.shape[d]
            h = T.fdiv(n, 2)
            ix[d] = T.mod(IDX(d) - h if sign > 0 else IDX(d) + h, n)
        return I.mk(Arr(a.shape, a.k, at(a, ix)))
    return g


FN["numpy.fft.fftshift"] = shiftfn(1)
FN["numpy.fft.ifftshift"] = shiftfn(-1)


@np_fn("numpy.fft.fftfreq")
def _fftfreq(I, args, kw):
    n = need_int(args[0], "fftfreq")
    d = lift(I, kw.get("d", args[1] if len(args) > 1 else sc(1)))
    i = IDX(0)
    return I.mk(Arr((n,), "f", T.ite(T.lt(i, T.fdiv(n + 1, 2)), i, i - n) / (n * as_num(d.v, d.k))))


# ---- signal
@np_fn("scipy.signal.hilbert")
def _hilbert(I, args, kw):
    a = lift(I, args[0])
    if len(args) > 1 or kw:
        raise Unsupported("hilbert with options")
    if a.k == "c":
        raise RaiseEx("ValueError", "x must be real")
    if a.ndim != 1:
        raise Unsupported("hilbert of a matrix")
    n = a.shape[0]
    I.oblige(T.ge(n, 1), "hilbert of a non-empty signal", "ValueError")
    v = T.fresh("b")
    h = T.close_bind("hilb", n, v, T.subst(as_num(a.body, a.k), {T.the_atom(IDX(0)): v}), (IDX(0),))
    return I.mk(Arr((n,), "c", as_num(a.body, a.k) + T.IMAG * h))


def window_fn(name, ax):
    def g(I, args, kw):
        n = need_int(args[0], name + " length")
        if len(args) > 1 or kw:
            raise Unsupported("window options")
        I.oblige(T.ge(n, 0), "window length is non-negative", "ValueError")
        return I.mk(Arr((n,), "f", T.fn(name, (n, IDX(0)))))
    smt.FN_AX[name] = ax
    return g


# hamming(n)[i] = 0.54 - 0.46 cos(2 pi i/(n-1)): values in [0.08, 1], centre 1 for odd n
FN["scipy.signal.hamming"] = window_fn("hamming", lambda a, v: And(
    T.ge(v, Fraction(2, 25)), T.le(v, 1),
    Or(Not(T.eq(2 * a[1], a[0] - 1)), T.eq(v, 1))))


# ---- random
def rnd_arr(I, name, shape, inv):
    a = I.fresh_arr("rand", shape, "f") if shape else None
    if a is None:
        s = I.fresh_scalar("rand", "f")
        nm = T.the_atom(s).args[0]
        if inv:
            smt.ELEM_INV[nm] = lambda idx, v: inv(v)
        I.draws.append((name, s))
        return Sc(s, "f")
    nm = T.the_atom(a.body).args[0]
    if inv:
        smt.ELEM_INV[nm] = lambda idx, v: inv(v)
    I.draws.append((name, a))
    return I.mk(a)


@np_fn("numpy.random.rand")
def _rand(I, args, kw):
    return rnd_arr(I, "rand", [shape_dim(I, x) for x in args], lambda v: And(T.ge(v, 0), T.lt(v, 1)))


@np_fn("numpy.random.randn")
def _randn(I, args, kw):
    return rnd_arr(I, "randn", [shape_dim(I, x) for x in args], None)


@np_fn("numpy.random.normal", "numpy.random.standard_normal")
def _normal(I, args, kw):
    sz = kw.get("size", args[2] if len(args) > 2 else None)
    return rnd_arr(I, "normal", [] if sz is None else shape_arg(I, sz), None)


@np_fn("warnings.warn")
def _warn(I, args, kw):
    I.warned.append(I.where)
    return None


@np_fn("warnings.catch_warnings", "numpy.errstate")
def _ctx(I, args, kw):
    return Opaque("ctx")


@np_fn("warnings.simplefilter", "warnings.filterwarnings", "numpy.random.seed")
def _noop(I, args, kw):
    return None


@np_fn("scipy.integrate.trapezoid", "numpy.trapz")
def _trapezoid(I, args, kw):
    y = lift(I, args[0])
    x = kw.get("x", args[1] if len(args) > 1 else None)
    dx = kw.get("dx", args[2] if len(args) > 2 else None)
    ax = kw.get("axis", args[3] if len(args) > 3 else None)
    nd = y.ndim
    axis = nd - 1 if ax is None else int(sc(ax).v.const()) % nd
    n = y.shape[axis]
    ix = [IDX(d) for d in range(nd)]
    v = T.fresh("b")
    m0 = list(ix)
    m0[axis] = v
    m1 = list(ix)
    m1[axis] = v + 1
    if x is not None:
        xa = lift(I, x)
        if xa.ndim != 1:
            raise Unsupported("trapezoid with a matrix of abscissae")
        I.oblige(T.eq(xa.shape[0], n), "trapezoid lengths agree", "ValueError")
        w = at_num(xa, [v + 1]) - at_num(xa, [v])
    else:
        w = sc(dx).v if dx is not None else T.ONE
    body = w * (at_num(y, m0) + at_num(y, m1)) / 2
    sh = [s for d, s in enumerate(y.shape) if d != axis]
    ren = {}
    for d in range(axis + 1, nd):
        ren[T.the_atom(IDX(d))] = IDX(d - 1)
    if ren:
        body = T.subst(body, ren)
    r = T.close_bind("sum", max0(I, n - 1), v, body)
    k = kmax("f", y.k)
    return Sc(r, k) if not sh else I.mk(Arr(sh, k, r))
