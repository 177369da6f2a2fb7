"""Utilities: sigmerge (C18), integer helpers (C19), izak and gabor (C20), integration and window derivative (C21)."""
from npv.registry import contract

U, GU, PU, LIN = "tftb.utils", "tftb.generators.utils", "tftb.processing.utils", "tftb.processing.linear"


@contract("C18", functions=[GU + ".sigmerge"])
def sigmerge(B):
    n = B.int("n", 1)
    x, z = B.carray("x1", n), B.carray("x2", n, nonzero=True)
    r = B.real("ratio", samp=(-40, 40), nice=(0, 10, -10))
    y = B.call(GU, "sigmerge", x, z, r)
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    e1 = B.sum(n, lambda k: B.abs2(B.at(x, k)))
    e2 = B.sum(n, lambda k: B.abs2(B.at(z, k)))
    h = B.sqrt(e1 / (e2 * B.pow(10, r / 10)))
    B.ensure("first signal plus a non-negative multiple of the second",
             B.forall([n], lambda k: B.eq(B.at(y, k), B.at(x, k) + h * B.at(z, k))))
    B.ensure("energy ratio", B.eq(
        B.sum(n, lambda k: B.abs2(B.at(y, k) - B.at(x, k))) * B.pow(10, r / 10), e1))
    B.unchanged("x1", "x2")


@contract("C18", functions=[GU + ".sigmerge"])
def sigmerge_default(B):
    n = B.int("n", 1)
    x, z = B.carray("x1", n), B.carray("x2", n, nonzero=True)
    y = B.call(GU, "sigmerge", x, z)
    e1 = B.sum(n, lambda k: B.abs2(B.at(x, k)))
    B.ensure("equal energies", B.eq(B.sum(n, lambda k: B.abs2(B.at(y, k) - B.at(x, k))), e1))


@contract("C18", functions=[GU + ".sigmerge"])
def sigmerge_integer_ratio(B):
    n, r = B.int("n", 1), B.int("ratio", None, samp=(-40, 40))
    x, z = B.carray("x1", n), B.carray("x2", n, nonzero=True)
    y = B.call(GU, "sigmerge", x, z, r)
    e1 = B.sum(n, lambda k: B.abs2(B.at(x, k)))
    B.ensure("energy ratio", B.eq(
        B.sum(n, lambda k: B.abs2(B.at(y, k) - B.at(x, k))) * B.pow(10, r / 10), e1))


# ---------------------------------------------------------------- integers
@contract("C19", functions=[U + ".nextpow2"])
def nextpow2(B):
    n = B.int("n", 1, samp=(1, 2 ** 60), big=True)
    e = B.call(U, "nextpow2", n)
    B.ensure("power is at least n", B.ipow(2, e) >= n)
    B.ensure("least such exponent", B.or_(B.ieq(e, 0), B.implies(e >= 1, lambda: B.ipow(2, e - 1) < n)))
    B.ensure("non-negative", e >= 0)


@contract("C19", functions=[U + ".divider"])
def divider(B):
    n = B.int("n", 1, big=True)
    r = B.call(U, "divider", n)
    a, b = r
    B.ensure("product is N", B.ieq(a * b, n))
    B.ensure("positive, smaller first", B.and_(a >= 1, a <= b))
    B.ensure("the smaller is as large as possible", B.forall([(a + 1, n + 1)], lambda d: B.implies(
        d * d <= n, lambda: B.not_(B.ieq(B.mod(n, d), 0)))))


@contract("C19", functions=[U + ".nearest_odd"])
def nearest_odd_int(B):
    n = B.int("n", None, samp=(-50, 50))
    y = B.call(U, "nearest_odd", n)
    B.ensure("odd", B.ieq(B.mod(y, 2), 1))
    B.ensure("odd integers unchanged, even ones moved by one",
             B.ite(B.ieq(B.mod(n, 2), 1), lambda: B.ieq(y, n), lambda: B.or_(B.ieq(y, n + 1), B.ieq(y, n - 1))))


@contract("C19", functions=[U + ".nearest_odd"])
def nearest_odd_real(B):
    x = B.real("x")
    y = B.call(U, "nearest_odd", x)
    B.ensure("odd", B.ieq(B.mod(y, 2), 1))
    B.ensure("within distance one", B.and_(B.leq(y - x, 1), B.leq(x - y, 1)))


@contract("C19", functions=[U + ".nearest_odd"])
def nearest_odd_array(B):
    K = B.int("K", 0)
    x = B.rarray("x", K)
    x0 = B.copy(x)
    y = B.call(U, "nearest_odd", x)
    B.ensure("same length", B.ieq(B.shape(y), (K,)))
    B.ensure("odd", B.forall([K], lambda k: B.ieq(B.mod(B.at(y, k), 2), 1)))
    B.ensure("within distance one", B.forall([K], lambda k: B.and_(
        B.leq(B.at(y, k) - B.at(x0, k), 1), B.leq(B.at(x0, k) - B.at(y, k), 1))))
    B.unchanged("x")


@contract("C19", functions=[U + ".modulo"])
def modulo(B):
    K, N = B.int("K", 1), B.int("N", 1)
    x = B.iarray("x", K, lo=-60, hi=200)
    y = B.call(U, "modulo", x, N)
    B.ensure("same length", B.ieq(B.shape(y), (K,)))
    B.ensure("residue in 1..N", B.forall([K], lambda k: B.and_(B.at(y, k) >= 1, B.at(y, k) <= N)))
    B.ensure("congruent", B.forall([K], lambda k: B.ieq(B.mod(B.at(y, k) - B.at(x, k), N), 0)))
    B.unchanged("x")


# ---------------------------------------------------------------- transforms
@contract("C20", functions=[U + ".izak"])
def izak(B):
    n, m = B.int("n", 1, samp=(1, 30)), B.int("m", 1, samp=(1, 30))
    x = B.carray("x", n, m)
    y = B.call(U, "izak", x)
    B.ensure("n*m samples", B.ieq(B.shape(y), (n * m,)))
    B.ensure("inverse transforms of the columns, interleaved", B.forall([m, n], lambda i, l: B.eq(
        B.at(y, i + l * m) * B.sqrt(n), B.dft(n, lambda j: B.at(x, j, i), -l))))
    B.unchanged("x")


@contract("C20", functions=[U + ".izak"])
def izak_vector(B):
    n = B.int("n", 1)
    x = B.carray("x", n)
    y = B.call(U, "izak", x)
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("inverse transform", B.forall([n], lambda l: B.eq(
        B.at(y, l) * B.sqrt(n), B.dft(n, lambda j: B.at(x, j), -l))))
    B.unchanged("x")


# ---------------------------------------------------------------- integration
def trapz2(B, m, n, at, dx, y):
    """trapezoidal double integral on a uniform x axis of step dx and the y axis given"""
    def row(i):
        return dx * (B.sum(n, lambda j: at(i, j)) - at(i, 0) / 2 - at(i, n - 1) / 2)
    return B.sum(m - 1, lambda i: (row(i) + row(i + 1)) * (y(i + 1) - y(i)) / 2)


@contract(("C21", "C27", "C31"), functions=[PU + ".integrate_2d"])
def integrate(B):
    m, n = B.int("m", 1), B.int("n", 2)
    M, y = B.rarray("mat", m, n), B.rarray("y", m)
    x0, dx = B.real("x0"), B.real("dx", samp=(0.1, 5))
    x = B.darray("x", (n,), lambda j: x0 + dx * j)
    v = B.call(PU, "integrate_2d", M, x, y)
    B.ensure("trapezoidal double integral", B.eq(v, trapz2(B, m, n, lambda i, j: B.at(M, i, j), dx, lambda i: B.at(y, i))))
    B.unchanged("mat", "x", "y")


@contract(("C21", "C27", "C31"), functions=[PU + ".integrate_2d"])
def integrate_default_axes(B):
    m, n = B.int("m", 1), B.int("n", 2)
    M = B.rarray("mat", m, n)
    v = B.call(PU, "integrate_2d", M)
    B.ensure("trapezoidal double integral", B.eq(v, trapz2(B, m, n, lambda i, j: B.at(M, i, j), 1, lambda i: i)))
    B.unchanged("mat")


@contract("C21", functions=[PU + ".derive_window"])
def derive(B):
    n = B.int("n", 2)
    w = B.rarray("w", n)
    d = B.call(PU, "derive_window", w)
    B.ensure("same length", B.ieq(B.shape(d), (n,)))
    B.ensure("central difference in the interior", B.forall([(1, n - 1)], lambda k: B.eq(
        B.at(d, k), (B.at(w, k + 1) - B.at(w, k - 1)) / 2)))
    s = (B.at(w, 0) + B.at(w, n - 1)) / 2
    r = (B.at(w, 0) - B.at(w, n - 1)) / (n - 1)
    # one-sided difference of the window with the ramp -r*k+w[0] taken out, plus ramp and end step
    B.ensure("first end", B.eq(B.at(d, 0), (B.at(w, 1) - s - r * (1 - (n - 1) / 2)) / 2 + r + s))
    B.ensure("last end", B.eq(B.at(d, n - 1), -(B.at(w, n - 2) - s - r * ((n - 1) / 2 - 1)) / 2 + r - s))
    B.unchanged("w")


@contract("C21", functions=[PU + ".derive_window"])
def derive_single(B):
    w = B.rarray("w", 1)
    d = B.call(PU, "derive_window", w)
    B.ensure("the derivative of a single point is zero", B.and_(B.ieq(B.shape(d), (1,)), B.eq(B.at(d, 0), 0)))
    B.unchanged("w")


# ---------------------------------------------------------------- gabor
def gabor_sizes(B):
    q, nb, r = B.int("q", 1, samp=(1, 4)), B.int("nb", 1, samp=(1, 8)), B.int("r", 1, samp=(1, 6))
    m = q * r
    return q, nb, r, m, nb * m, q * nb


def fits(B, n, c, q, nh):
    """the window, placed as documented, lies inside the signal"""
    al = B.round((2 * n / c - 1 - nh) / (2 * q))
    B.require(B.round((n - (nh - 1)) / 2) - al >= 1)
    B.require(B.round((n + nh - 1) / 2) - al <= n)


@contract("C20", functions=[LIN + ".gabor"])
def gabor(B):
    q, nb, r, m, n, c = gabor_sizes(B)
    x = B.carray("x", n)
    L = B.int("L", 0, samp=(0, 12))
    B.require(2 * L + 1 <= c)
    fits(B, n, c, q, 2 * L + 1)
    w = B.rarray("w", 2 * L + 1, pos=True)
    tfr, dgr, gam = B.call(LIN, "gabor", x, c, q, w)
    B.ensure("shapes", B.and_(B.ieq(B.shape(tfr), (m, c)), B.ieq(B.shape(dgr), (m, c)), B.ieq(B.shape(gam), (n,))))
    B.ensure("real dual window", B.not_(B.is_complex(gam)))
    B.ensure("first output is the squared modulus of the second", B.forall([m, c], lambda i, j: B.eq(
        B.at(tfr, i, j), B.abs2(B.at(dgr, i, j)))))
    B.ensure("coefficients are transforms of the signal under the shifted dual window", B.forall(
        [m, c], lambda i, j: B.eq(B.at(dgr, i, j), B.dft(n, lambda t: B.at(x, t) * B.at(
            gam, B.mod(B.mod(t + (n + 1) // 2, n) - j * r, n)), i * nb))))
    B.unchanged("x", "w")


def placed(B, w, n, c, q, nh, t):
    """the window as placed in the signal, at sample t"""
    al = B.round((2 * n / c - 1 - nh) / (2 * q))
    s, e = B.round((n - (nh - 1)) / 2) - al - 1, B.round((n + nh - 1) / 2) - al
    return B.ite(B.and_(t >= s, t < e), lambda: B.at(w, t - s), 0)


@contract("C20", functions=[LIN + ".gabor"])
def gabor_dual_window(B):
    """the dual window is the inverse Zak transform of the window's Zak transform over its energy on the lattice"""
    q, nb, r, m, n, c = gabor_sizes(B)
    x = B.carray("x", n)
    L = B.int("L", 0, samp=(0, 12))
    B.require(2 * L + 1 <= c)
    fits(B, n, c, q, 2 * L + 1)
    w = B.rarray("w", 2 * L + 1, pos=True)
    tfr, dgr, gam = B.call(LIN, "gabor", x, c, q, w)

    def zak(f, i):
        return B.dft(nb, lambda l: placed(B, w, n, c, q, 2 * L + 1, i + l * m), f)

    def ratio(f, i):
        e = B.sum(q, lambda l: B.abs2(zak(f, B.mod(i - l * r, m))) / nb)
        return zak(f, i) / B.ite(e * 2 ** 52 < 1, 1, e)
    B.ensure("dual window", B.forall([n], lambda t: B.eq(B.at(gam, t) * n * nb, B.re(B.dft(
        nb, lambda f: ratio(f, B.mod(t, m)), -((t - B.mod(t, m)) // m))))))


@contract("C20", functions=[LIN + ".gabor"], symbolic=False)
def gabor_biorthogonal(B):
    """the signal is the sum of its coefficients times the shifted, modulated window wherever the window has a dual"""
    q, nb, r, m, n, c = gabor_sizes(B)
    x = B.carray("x", n)
    L = B.int("L", 0, samp=(0, 12))
    B.require(2 * L + 1 <= c)
    fits(B, n, c, q, 2 * L + 1)
    w = B.rarray("w", 2 * L + 1, pos=True)
    h = [placed(B, w, n, c, q, 2 * L + 1, t) for t in range(n)]

    def energy(f, i):
        return sum(B.abs2(B.dft(nb, lambda l: h[(i - k * r) % m + l * m], f)) for k in range(q)) / nb
    B.require(min(energy(f, i) for f in range(nb) for i in range(m)) > 1e-3)
    tfr, dgr, gam = B.call(LIN, "gabor", x, c, q, w)
    top = max([abs(B.at(x, t)) for t in range(n)])
    B.ensure("the window and its dual reconstruct the signal", B.forall([n], lambda t: B.eq(
        B.sum(c, lambda j: h[(t + (n + 1) // 2 - j * r) % n] * B.dft(m, lambda i: B.at(dgr, i, j), -t)), B.at(x, t),
        scale=1e3 * top)))


@contract(["C20", "C12"], name="gabor_even_window", functions=[LIN + ".gabor"])
def gabor_even_window(B):
    n, L = B.int("n", 1), B.int("L", 0)
    x, w = B.carray("x", n), B.rarray("w", 2 * L + 2, pos=True)
    B.ensure("even-length window is rejected", B.raises(
        lambda: B.call(LIN, "gabor", x, n, 1, w), ("ValueError",)))
