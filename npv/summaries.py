"""Callee contracts used modularly in place of the callee's body.

A contract lists in `uses` the callees it takes by contract.  Each entry here states the callee's precondition as
obligations at the call and returns what its postcondition says.  The contract the entry relies on is proved on the
callee's real body by the contracts named in registry.JUSTIFIED_BY, which every property using the entry also lists."""
from . import terms as T
from .interp import Sc, Ref, Unsupported, at, as_num


def integrate_2d(I, args, kw):
    """requires a real (m, n) array, n >= 2, an x axis of n equally spaced values and a y axis of m values (both default
    to 0, 1, 2, ...); returns the trapezoidal double integral; modifies nothing."""
    from contracts.utils import trapz2
    names = ("mat", "x", "y")
    if len(args) > 3 or set(kw) - set(names):
        return NotImplemented
    v = dict(zip(names, args))
    v.update(kw)
    if not isinstance(v.get("mat"), Ref):
        return NotImplemented
    M = I.get(v["mat"])
    if M.ndim != 2 or M.k == "c":
        return NotImplemented
    m, n = M.shape
    ax = {}
    for q, size in (("x", n), ("y", m)):
        a = v.get(q)
        if a is None:
            ax[q] = T.P
            continue
        if not isinstance(a, Ref):
            return NotImplemented
        a = I.get(a)
        if a.ndim != 1 or a.k == "c":
            return NotImplemented
        I.oblige(T.eq(a.shape[0], size), "integrate_2d: one %s value per %s" % (q, "column" if q == "x" else "row"))
        ax[q] = lambda i, a=a: as_num(at(a, [T.P(i)]), a.k)
    I.oblige(T.And(T.ge(m, 1), T.ge(n, 2)), "integrate_2d: at least one row and two columns")
    x0, dx = ax["x"](0), ax["x"](1) - ax["x"](0)
    I.oblige(I.B.forall([n], lambda j: T.eq(ax["x"](j), x0 + dx * j)), "integrate_2d: equally spaced x axis")
    return Sc(trapz2(I.B, m, n, lambda i, j: as_num(at(M, [T.P(i), T.P(j)]), M.k), dx, ax["y"]), "f", False)


SUMMARIES = {"tftb.processing.utils.integrate_2d": integrate_2d}
