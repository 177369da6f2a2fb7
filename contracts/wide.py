"""Wide-band ambiguity function (C26)."""
from npv.registry import contract

AMB = "tftb.processing.ambiguity"


def analytic(B, n, x):
    def re(i):
        return B.re(B.at(x, i))
    return lambda j: re(j) + B.I * B.hilb(n, re, j)


def band_energy(B, n, x, lo, hi):
    """sum of |analytic spectrum|^2 over the bins round(lo*(n-2)) .. round(hi*(n-2))"""
    z = analytic(B, n, x)
    a, b = B.round(lo * (n - 2)), B.round(hi * (n - 2))
    return B.sum(b - a + 1, lambda i: B.abs2(B.dft(n, z, a + i)))


@contract("C26", functions=[AMB + ".wide_band"], symbolic=False)
def wide_band(B):
    n, N = B.int("n", 3, samp=(3, 20)), B.int("N", 2, samp=(2, 16))
    lo, hi = B.real("fmin", 0, 0.5, lopen=True, samp=(0.02, 0.45)), B.real("fmax", 0, 0.5, lopen=True, samp=(0.05, 0.5))
    B.require(lo < hi)
    x = B.carray("x", n)
    W, tau, theta = B.call(AMB, "wide_band", x, lo, hi, N)
    B.ensure("shape (N, n)", B.ieq(B.shape(W), (N, n)))
    m = B.round(n / 2)
    B.ensure("lags centred on zero", B.and_(B.ieq(B.shape(tau), (n,)), B.forall(
        [n], lambda j: B.ieq(B.at(tau, j), j - m))))
    B.ensure("scale axis", B.and_(B.ieq(B.shape(theta), (N,)), B.forall([N], lambda k: B.eq(
        B.at(theta, k), B.log(hi / lo) * (2 * k / (N - 1) - 1)))))
    z = [analytic(B, n, x)(j) for j in range(n)]
    q = B.pow(hi / lo, 1 / (N - 1))
    f = [lo * B.pow(q, p) for p in range(N)]
    S = [sum(z[j] * B.cis(-(j - m) * f[p]) for j in range(n)) * B.pow(q, p / 2) for p in range(N)]

    def mellin(s, k):
        """row k of the centred inverse transform of s padded to 2N"""
        k = (k + N) % (2 * N)
        return sum(s[p] * B.cis(k * p / (2 * N)) for p in range(N)) / (2 * N)
    M0 = [mellin(S, k) for k in range(N)]
    raw = []
    for j in range(n):
        Sj = [S[p] * B.cis(-(j - m) * f[p]) for p in range(N)]
        P = [M0[k] * B.conj(mellin(Sj, k)) for k in range(N)]
        col = [sum(P[k] * B.cis(k * r / N) for k in range(N)) / N for r in range(N)]
        h = (N + 1) // 2
        raw.append(col[h:] + col[:h])
    row, colr = (N + 1) // 2 - 1, m - 1
    ref = raw[colr][row]
    B.require(abs(ref) > 1e-6 * max(abs(v) for c in raw for v in c))
    E = band_energy(B, n, x, lo, hi)
    B.ensure("reference cell is the band energy over N", B.eq(B.at(W, row, colr) * N, E))
    B.ensure("product of Mellin transforms", B.forall([N, n], lambda r, j: B.eq(
        B.at(W, r, j) * ref * N, raw[j][r] * E, scale=max(abs(ref), abs(raw[j][r])) * E)))
    B.unchanged("x")


@contract("C26", functions=[AMB + ".wide_band"], symbolic=False)
def wide_band_column(B):
    n, N = B.int("n", 3, samp=(3, 20)), B.int("N", 2, samp=(2, 16))
    lo, hi = B.real("fmin", 0, 0.5, lopen=True, samp=(0.02, 0.2)), B.real("fmax", 0, 0.5, lopen=True, samp=(0.25, 0.5))
    x = B.carray("x", n)
    col = B.darray("col", (n, 1) if B.choice("column", (True, False)) else (1, n),
                   lambda i, j: B.at(x, i + j), kind="c")
    a, b = B.call(AMB, "wide_band", x, lo, hi, N), B.call(AMB, "wide_band", col, lo, hi, N)
    for name, u, v in zip(("matrix", "lags", "scales"), a, b):
        B.same("row and column vectors give the same " + name, u, v)


@contract("C26", functions=[AMB + ".wide_band"])
def wide_band_matrix_rejected(B):
    n, p = B.int("n", 2), B.int("p", 2)
    x = B.carray("x", n, p)
    B.ensure("a matrix is rejected", B.raises(lambda: B.call(AMB, "wide_band", x, 0.1, 0.4, 8), ("ValueError",)))
