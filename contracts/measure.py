"""Measurements: localisation (C22), instantaneous frequency (C23), group delay (C24), ambiguity (C25, C26),
Renyi information (C27), ideal representation (C28)."""
from npv.registry import contract

TD, FD, AM, PP = ("tftb.processing.time_domain", "tftb.processing.freq_domain", "tftb.processing.ambiguity",
                  "tftb.processing.postprocessing")


def moments(B, n, pos, w, mean, spread):
    """mean and 2*sqrt(pi)*deviation of the positions pos(k) under the weights w(k)"""
    E = B.sum(n, w)
    m = B.sum(n, lambda k: pos(k) * w(k)) / E
    B.ensure("weighted mean", B.eq(mean, m))
    B.ensure("spread is not negative", B.leq(0, spread))
    B.ensure("squared spread", B.eq(spread * spread, 4 * B.pi * B.sum(
        n, lambda k: (pos(k) - m) * (pos(k) - m) * w(k)) / E))


@contract("C22", functions=[TD + ".loctime"])
def loctime(B):
    n = B.int("n", 1)
    x = B.carray("x", n, nonzero=True)
    tm, T = B.call(TD, "loctime", x)
    moments(B, n, lambda k: k, lambda k: B.abs2(B.at(x, k)), tm, T)
    B.unchanged("x")


@contract("C22", functions=[FD + ".locfreq"])
def locfreq(B):
    n = B.int("n", 1)
    x = B.carray("x", n, nonzero=True)
    fm, bw = B.call(FD, "locfreq", x)

    def bin_(k):
        return B.ite(2 * k < n, lambda: k, lambda: k - n) / n
    moments(B, n, bin_, lambda k: B.abs2(B.dft(n, lambda j: B.at(x, j), k)), fm, bw)
    B.unchanged("x")


# ---------------------------------------------------------------- instantaneous frequency
def phase_advance(B, x, f, t):
    """0 and 1/2 stand for the same frequency"""
    z = B.at(x, t) * B.conj(B.at(x, t - 2))
    return B.and_(B.leq(0, f), B.leq(f, 0.5), B.implies(B.abs2(z) > 0, lambda: B.eq(z, B.abs(z) * B.cis(2 * f))))


@contract("C23", functions=[FD + ".inst_freq"])
def inst_freq(B):
    n, T = B.int("n", 3), B.int("T", 1)
    x, t = B.carray("x", n), B.iarray("t", T, lo=2, hi=n - 1)
    f, ts = B.call(FD, "inst_freq", x, t)
    B.ensure("time instants are returned", B.and_(B.ieq(B.shape(ts), (T,)), B.forall(
        [T], lambda c: B.ieq(B.at(ts, c), B.at(t, c)))))
    B.ensure("one value per instant", B.ieq(B.shape(f), (T,)))
    B.ensure("half the phase advance over two samples, in [0, 1/2]", B.forall(
        [T], lambda c: phase_advance(B, x, B.at(f, c), B.at(t, c))))
    B.unchanged("x", "t")


@contract("C23", functions=[FD + ".inst_freq"])
def inst_freq_default(B):
    n = B.int("n", 3)
    x = B.carray("x", n)
    f, ts = B.call(FD, "inst_freq", x)
    B.ensure("instants 2..N-1", B.and_(B.ieq(B.shape(ts), (n - 2,)), B.forall(
        [n - 2], lambda c: B.ieq(B.at(ts, c), c + 2))))
    B.ensure("one value per instant", B.ieq(B.shape(f), (n - 2,)))
    B.ensure("half the phase advance over two samples, in [0, 1/2]", B.forall(
        [n - 2], lambda c: phase_advance(B, x, B.at(f, c), c + 2)))
    B.unchanged("x")


@contract("C23", functions=[FD + ".inst_freq"])
def inst_freq_tone(B):
    n, f0 = B.int("n", 3), B.real("f0", 0, 0.5, lopen=True, hopen=True)
    A, ph = B.real("A", 0, lopen=True), B.real("phase")
    x = B.darray("x", (n,), lambda k: A * B.cis(f0 * k + ph), kind="c")
    f, ts = B.call(FD, "inst_freq", x)
    B.ensure("frequency of the tone", B.forall([n - 2], lambda c: B.eq(B.at(f, c), f0)))


# ---------------------------------------------------------------- group delay
def gated(B, n, r, g):
    """g is r when 1 <= r <= n+3 and 0 otherwise (either one within rounding of the two ends)"""
    tol = B.rounding
    return B.and_(
        B.implies(B.and_(r >= 1 + tol, r <= n + 3 - tol), lambda: B.eq(g, r)),
        B.implies(B.or_(r < 1 - tol, r > n + 3 + tol), lambda: B.eq(g, 0)),
        B.or_(B.eq(g, r), B.eq(g, 0)))


@contract("C24", functions=[FD + ".group_delay"])
def group_delay(B):
    n, K = B.int("n", 1), B.int("K", 1)
    x, fn = B.carray("x", n), B.rarray("fnorm", K, lo=-0.5, hi=0.5)

    def num(c):
        return B.sum(n, lambda j: (j + 1) * B.at(x, j) * B.cis(-B.at(fn, c) * j))

    def den(c):
        return B.sum(n, lambda j: B.at(x, j) * B.cis(-B.at(fn, c) * j))
    B.require(B.forall([K], lambda c: B.abs(den(c)) > B.rounding))
    g = B.call(FD, "group_delay", x, fn)
    B.ensure("one value per frequency", B.ieq(B.shape(g), (K,)))
    B.ensure("gated real ratio", B.forall([K], lambda c: gated(B, n, B.re(num(c) / den(c)), B.at(g, c))))
    B.unchanged("x", "fnorm")


@contract("C24", functions=[FD + ".group_delay"])
def group_delay_all_bins(B):
    n = B.int("n", 1)
    x = B.carray("x", n)

    def num(k):
        return B.dft(n, lambda j: (j + 1) * B.at(x, j), k)

    def den(k):
        return B.dft(n, lambda j: B.at(x, j), k)
    B.require(B.forall([n], lambda k: B.abs(den(k)) > B.rounding))
    g = B.call(FD, "group_delay", x)
    B.ensure("one value per bin", B.ieq(B.shape(g), (n,)))
    B.ensure("gated real ratio at the centred bins", B.forall([n], lambda c: gated(
        B, n, B.re(num(B.mod(c - n // 2, n)) / den(B.mod(c - n // 2, n))), B.at(g, c))))
    B.unchanged("x")


# ---------------------------------------------------------------- ambiguity
def lag_doppler(B, n, F, x, naf, tau, j, r, c):
    """sum over the samples with both x[m+tau] and x[m-tau] inside"""
    t = B.abs(tau)
    return B.eq(B.at(naf, r, c), B.dft(F, lambda m: B.ite(
        B.and_(m - t >= 0, m + t <= n - 1),
        lambda: B.at(x, m + tau) * B.conj(B.at(x, m - tau)), 0), j))


def doppler_axis(B, F, xi):
    B.ensure("centred Doppler axis", B.and_(B.ieq(B.shape(xi), (F,)), B.forall([F], lambda r: B.eq(
        B.at(xi, r), (r - F // 2) / F))))


@contract("C25", functions=[AM + ".narrow_band"])
def narrow_band(B):
    n, T = B.int("n", 1), B.int("T", 1)
    F = n + B.int("extra", 0, samp=(0, 9))
    x, lag = B.carray("x", n), B.iarray("lag", T, lo=-20, hi=20)
    naf, lags, xi = B.call(AM, "narrow_band", x, lag, F)
    B.ensure("shape", B.ieq(B.shape(naf), (F, T)))
    B.ensure("lags are returned", B.and_(B.ieq(B.shape(lags), (T,)), B.forall(
        [T], lambda c: B.ieq(B.at(lags, c), B.at(lag, c)))))
    doppler_axis(B, F, xi)
    B.ensure("definition", B.forall([F, T], lambda r, c: lag_doppler(
        B, n, F, x, naf, B.at(lag, c), r - F // 2, r, c)))
    B.unchanged("x", "lag")


@contract("C25", functions=[AM + ".narrow_band"])
def narrow_band_default(B):
    n = B.int("n", 1)
    x = B.carray("x", n)
    naf, lags, xi = B.call(AM, "narrow_band", x)
    T = B.shape(lags)[0]
    B.ensure("shape", B.ieq(B.shape(naf), (n, T)))
    B.ensure("number of lags", B.ieq(T, B.ite(B.ieq(B.mod(n, 2), 0), n - 1, n)))
    B.ensure("lags centred on zero", B.forall([T], lambda c: B.eq(B.at(lags, c), c - (n - 1) // 2)))
    doppler_axis(B, n, xi)
    B.ensure("definition", B.forall([n, T], lambda r, c: lag_doppler(
        B, n, n, x, naf, c - (n - 1) // 2, r - n // 2, r, c)))
    B.ensure("energy at the origin", B.eq(B.at(naf, n // 2, (n - 1) // 2), B.sum(n, lambda m: B.abs2(B.at(x, m)))))
    B.unchanged("x")
