"""Post-processing: Renyi information (C27), ideal representation (C28), Hough and Friedman (C29)."""
from fractions import Fraction
from contracts.utils import trapz2
from npv.registry import contract

PP, PU = "tftb.processing.postprocessing", "tftb.processing.utils"
RENYI = [PP + ".renyi_information", PU + ".integrate_2d"]
INT = [PU + ".integrate_2d"]


def trapz(B, m, n, f, t, y):
    """trapezoidal double integral of f(i, j) over rows y(i) and columns spaced t(1) - t(0)"""
    return trapz2(B, m, n, f, t(1) - t(0), y)


def distribution(B, **kw):
    m, n = B.int("m", 2), B.int("n", 2)
    return m, n, B.rarray("tfr", m, n, **kw)


def axis(B, n):
    """equally spaced time instants"""
    t0, dt = B.real("t0"), B.real("dt", 0, lopen=True, samp=(0.1, 5))
    return B.darray("t", (n,), lambda j: t0 + dt * j)


EPS = Fraction(1, 2 ** 52)          # numpy.spacing(1)


def order(B, m, n, tfr, t, y, alpha, R):
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), t, y)
    v = trapz(B, m, n, lambda i, j: B.pow(B.at(tfr, i, j) / E, alpha), t, y)
    B.require(v + EPS > 0)
    B.ensure("log of the integral of the power", B.eq(R, B.log2(v + EPS) / (1 - alpha)))


def integral_ok(B, m, n, tfr, t, y):
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), t, y)
    B.require(B.abs(E) > B.rounding)


@contract("C27", functions=RENYI, uses=INT)
def renyi_axes(B):
    m, n, tfr = distribution(B)
    t, y = axis(B, n), B.rarray("f", m)
    at, ay = (lambda j: B.at(t, j)), (lambda i: B.sorted(m, lambda k: B.at(y, k), i))
    integral_ok(B, m, n, tfr, at, ay)
    a = B.choice("alpha", (3, 2, 4))
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), at, ay)
    B.require(trapz(B, m, n, lambda i, j: B.pow(B.at(tfr, i, j) / E, a), at, ay) > 0)
    R = B.call(PP, "renyi_information", tfr, t, y, a)
    order(B, m, n, tfr, at, ay, a, R)
    B.unchanged("tfr", "t", "f")


@contract("C27", functions=RENYI, uses=INT)
def renyi_default(B):
    m, n, tfr = distribution(B)
    one, i_ = (lambda j: j), (lambda i: i)
    integral_ok(B, m, n, tfr, one, i_)
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), one, i_)
    B.require(trapz(B, m, n, lambda i, j: B.pow(B.at(tfr, i, j) / E, 3), one, i_) > 0)
    R = B.call(PP, "renyi_information", tfr)
    order(B, m, n, tfr, one, i_, 3, R)
    B.unchanged("tfr")


@contract("C27", functions=RENYI, uses=INT)
def renyi_real_order(B):
    m, n, tfr = distribution(B, pos=True)
    a = B.real("alpha", 0, lopen=True, samp=(0.1, 5))
    B.require(B.not_(B.eq(a, 1)))
    t, y = axis(B, n), B.rarray("f", m)
    at, ay = (lambda j: B.at(t, j)), (lambda i: B.sorted(m, lambda k: B.at(y, k), i))
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), at, ay)
    B.require(E > B.rounding)
    B.require(trapz(B, m, n, lambda i, j: B.pow(B.at(tfr, i, j) / E, a), at, ay) > 0)
    R = B.call(PP, "renyi_information", tfr, t, y, a)
    order(B, m, n, tfr, at, ay, a, R)


@contract("C27", functions=RENYI, uses=INT)
def shannon(B):
    m, n, tfr = distribution(B, nonneg=True)
    t, y = axis(B, n), B.rarray("f", m)
    at, ay = (lambda j: B.at(t, j)), (lambda i: B.sorted(m, lambda k: B.at(y, k), i))
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), at, ay)
    B.require(E > B.rounding)
    R = B.call(PP, "renyi_information", tfr, t, y, 1)

    def h(i, j):
        p = B.at(tfr, i, j) / E
        return p * B.log2(p + EPS)
    B.ensure("Shannon entropy", B.eq(R, -trapz(B, m, n, h, at, ay)))
    B.unchanged("tfr", "t", "f")


@contract("C27", functions=RENYI, uses=INT)
def shannon_rejects_negative(B):
    m, n, tfr = distribution(B)
    i, j = B.int("i", 0, m - 1), B.int("j", 0, n - 1)
    B.require(B.at(tfr, i, j) < 0)
    B.ensure("a negative distribution has no Shannon entropy", B.raises(
        lambda: B.call(PP, "renyi_information", tfr, None, None, 1), ("ValueError",)))


@contract("C27", functions=RENYI, uses=INT)
def renyi_scale_invariant(B):
    m, n, tfr = distribution(B)
    c = B.real("c", samp=(0.1, 100), lo=0, lopen=True)
    t, y = axis(B, n), B.rarray("f", m)
    at, ay = (lambda j: B.at(t, j)), (lambda i: B.sorted(m, lambda k: B.at(y, k), i))
    integral_ok(B, m, n, tfr, at, ay)
    E = trapz(B, m, n, lambda i, j: B.at(tfr, i, j), at, ay)
    B.require(trapz(B, m, n, lambda i, j: B.pow(B.at(tfr, i, j) / E, 3), at, ay) > 0)
    big = B.darray("big", (m, n), lambda i, j: c * B.at(tfr, i, j))
    R1 = B.call(PP, "renyi_information", tfr, t, y)
    R2 = B.call(PP, "renyi_information", big, t, y)
    B.ensure("scaling the distribution changes nothing", B.eq(R1, R2))


# ---------------------------------------------------------------- ideal representation
def marks(B, K, F, laws, tfr, T, t):
    B.ensure("ones exactly at the cells of the laws", B.forall([F, T], lambda r, c: B.eq(B.at(tfr, r, c), B.ite(
        B.exists(K, lambda j: B.ieq(B.round(2 * (F - 1) * B.at(laws, j, t(c))), r)), 1, 0))))


def bins(B, F, f):
    B.ensure("frequency axis k/(2F)", B.and_(B.ieq(B.shape(f), (F,)), B.forall(
        [F], lambda k: B.eq(B.at(f, k), k / (2 * F)))))


@contract("C28", functions=[PP + ".ideal_tfr"])
def ideal(B):
    K, N, T, F = B.int("K", 1, samp=(1, 4)), B.int("N", 1), B.int("T", 0), B.int("F", 1)
    laws, t = B.rarray("laws", K, N, lo=0, hi=0.5), B.iarray("t", T, lo=0, hi=N - 1)
    tfr, ts, f = B.call(PP, "ideal_tfr", laws, t, F)
    B.ensure("shape", B.ieq(B.shape(tfr), (F, T)))
    marks(B, K, F, laws, tfr, T, lambda c: B.at(t, c))
    B.ensure("time instants are returned", B.and_(B.ieq(B.shape(ts), (T,)), B.forall(
        [T], lambda c: B.ieq(B.at(ts, c), B.at(t, c)))))
    bins(B, F, f)
    B.unchanged("laws", "t")


@contract("C28", functions=[PP + ".ideal_tfr"])
def ideal_default(B):
    K, N = B.int("K", 1, samp=(1, 4)), B.int("N", 1)
    laws = B.rarray("laws", K, N, lo=0, hi=0.5)
    tfr, ts, f = B.call(PP, "ideal_tfr", laws)
    B.ensure("shape", B.ieq(B.shape(tfr), (N, N)))
    marks(B, K, N, laws, tfr, N, lambda c: c)
    B.ensure("time instants 0..N-1", B.and_(B.ieq(B.shape(ts), (N,)), B.forall([N], lambda c: B.ieq(B.at(ts, c), c))))
    bins(B, N, f)
    B.unchanged("laws")


# ---------------------------------------------------------------- Hough transform
def hough_body(B, m, n, ht, rho, theta, X, Y, image):
    rmax = B.sqrt(X * X + Y * Y) / 2
    B.ensure("distance axis", B.and_(B.ieq(B.shape(rho), (m,)), B.forall([m], lambda i: B.eq(
        B.at(rho, i), i * rmax / (m - 1)))))
    B.ensure("angle axis", B.and_(B.ieq(B.shape(theta), (n,)), B.forall([n], lambda k: B.eq(
        B.at(theta, k), 2 * B.pi * k / n))))
    B.ensure("accumulator shape", B.ieq(B.shape(ht), (m, n)))
    top = B.amax(X, lambda i: B.amax(Y, lambda j: B.at(image, i, j)))
    xc, yc = (X + 1) // 2, (Y + 1) // 2

    def votes(inside):
        def cell(i, k):
            def pixel(a, b):
                r = (a + 1 - xc) * B.cos(2 * B.pi * k / n) - (b + 1 - yc) * B.sin(2 * B.pi * k / n)
                return B.ite(B.and_(B.abs(B.at(image, a, b)) > top / 20, inside(r, i, a, b)), B.at(image, a, b), 0)
            return B.sum(X, lambda a: B.sum(Y, lambda b: pixel(a, b)))
        return cell
    tol = B.rounding

    def cell_ok(i, k):
        if B.symbolic:
            return B.eq(B.at(ht, i, k), votes(lambda r, i, a, b: B.and_(
                r >= 0, r <= rmax, B.ieq(B.round(r * (m - 1) / rmax), i)))(i, k))
        # a pixel whose distance is within rounding of a boundary may go either way (the centre's is exactly zero)
        lo = votes(lambda r, i, a, b: B.and_(r >= tol or (a + 1 == xc and b + 1 == yc), r <= rmax - tol, B.abs(r * (m - 1) / rmax - i) <= 0.5 - tol))(i, k)
        hi = votes(lambda r, i, a, b: B.and_(r >= -tol, r <= rmax + tol, B.abs(r * (m - 1) / rmax - i) <= 0.5 + tol))(i, k)
        return B.and_(B.leq(lo, B.at(ht, i, k)), B.leq(B.at(ht, i, k), hi))
    B.ensure("each pixel votes once per angle", B.forall([m, n], cell_ok))


@contract("C29", functions=[PP + ".hough_transform"], budget=360)
def hough(B):
    X, Y = B.int("X", 1, samp=(1, 9)), B.int("Y", 1, samp=(1, 9))
    m, n = B.int("m", 2, samp=(2, 12)), B.int("n", 2, samp=(2, 12))
    image = B.rarray("image", X, Y, nonneg=True)
    ht, rho, theta = B.call(PP, "hough_transform", image, m, n)
    hough_body(B, m, n, ht, rho, theta, X, Y, image)
    B.unchanged("image")


@contract("C29", functions=[PP + ".hough_transform"], symbolic=False)
def hough_default(B):
    X, Y = B.int("X", 2, samp=(2, 9)), B.int("Y", 2, samp=(2, 9))
    image = B.rarray("image", X, Y, nonneg=True)
    ht, rho, theta = B.call(PP, "hough_transform", image)
    hough_body(B, X, Y, ht, rho, theta, X, Y, image)
    B.unchanged("image")


# ---------------------------------------------------------------- Friedman density
@contract("C29", functions=[PP + ".friedman_density"], symbolic=False)
def friedman(B):
    F, T = B.int("F", 1, samp=(1, 9)), B.int("T", 1, samp=(1, 9))
    tfr = B.rarray("tfr", F, T, nonneg=B.choice("sign", (True, False)))
    whole = B.choice("field", ("rows", "real", "complex"))
    re = B.iarray("re", F, T, lo=0, hi=F - 1) if whole == "rows" else \
        B.rarray("re", F, T, lo=-1, hi=F + 1) if whole == "real" else B.carray("re", F, T)
    thr = B.sum(F, lambda i: B.sum(T, lambda j: B.at(tfr, i, j))) / (2 * F * T)
    # a cell within rounding of the threshold could go either way
    B.require(B.forall([F, T], lambda i, j: B.abs(B.at(tfr, i, j) - thr) > 1e-12 * B.abs(thr)))

    def count(r, j):
        def cell(i):
            v = B.re(B.at(re, i, j))
            inside = B.and_(B.or_(B.ieq(r, 0), r <= v), B.or_(B.ieq(r, F - 1), v < r + 1))
            return B.ite(B.and_(B.at(tfr, i, j) > thr, inside), 1, 0)
        return B.sum(F, cell)
    total = B.sum(F, lambda i: B.sum(T, lambda j: B.ite(B.at(tfr, i, j) > thr, 1, 0)))
    B.require(total > 0)
    args = (B.darray("times", (T,), lambda j: 3 * j, kind="i"),) if B.choice("times given", (True, False)) else ()
    d = B.call(PP, "friedman_density", tfr, re, *args)
    B.ensure("shape", B.ieq(B.shape(d), (F, T)))
    B.ensure("share of the marked cells in each bin", B.forall([F, T], lambda r, j: B.eq(
        B.at(d, r, j) * total, count(r, j))))
    B.unchanged("tfr", "re")
