"""Cohen's class distributions: definitions (C02-C06)."""
from npv.registry import contract
from contracts.stft import circ

COH = "tftb.processing.cohen"


def std(B, window=True, times=False, real_window=False):
    N = B.int("N", 1)
    F = B.int("F", 1)
    x = B.carray("x", N)
    kw = {"n_fbins": F}
    L = w = None
    if window:
        L = B.int("L", 0)
        w = (B.rarray if real_window else B.carray)("w", 2 * L + 1)
        kw["fwindow"] = w
    t = None
    T = N
    if times:
        T = B.int("T", 1)
        if times == "cols":     # column c belongs to sample c
            B.require(T <= N)
        t = B.iarray("t", T, lo=0, hi=N - 1)
        kw["timestamps"] = t
    return N, F, x, L, w, T, t, kw


def within(B, tau, *bounds):
    return B.and_(*([tau <= b for b in bounds] + [-tau <= b for b in bounds]))


@contract("C02", functions=[COH + ".Spectrogram.run"])
def spectrogram_definition(B):
    N, F, x, L, w, T, t, kw = std(B, times=True)
    B.require(B.not_(B.eq(B.at(w, L), 0)))
    o = B.new(COH, "Spectrogram", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))
    M = B.min(L, (F - 1) // 2)

    def ok(c, tau):
        return B.and_(within(B, tau, M), B.at(t, c) + tau >= 0, B.at(t, c) + tau < N)

    def kern(c):
        def g(m):
            tau = circ(B, F, m)
            return B.ite(ok(c, tau), lambda: B.at(x, B.at(t, c) + tau) * B.conj(B.at(w, L + tau)), 0)
        return g

    def energy(c):
        lo = B.min(M, B.at(t, c))
        hi = B.min(M, N - 1 - B.at(t, c))
        return B.sum(lo + hi + 1, lambda i: B.abs2(B.at(w, L - lo + i)))
    B.ensure("entry is the normalised squared windowed spectrum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c) * energy(c), B.abs2(B.dft(F, kern(c), k)))))
    B.ensure("entries are non-negative", B.forall([F, T], lambda k, c: B.leq(0, B.at(tfr, k, c))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.unchanged("x", "w", "t")


def wv_kernel(B, x, N, F, c, wt):
    """lag kernel of the (pseudo) Wigner-Ville distribution; wt(tau) weight, L half length or None"""
    w, L = wt

    def prod(tau):
        v = B.at(x, c + tau) * B.conj(B.at(x, c - tau))
        return v if w is None else B.at(w, L + tau) * v

    bounds = [c, N - 1 - c, (F - 1) // 2] + ([L] if w is not None else [])

    def g(m):
        tau = circ(B, F, m)
        h = F // 2
        mid = [B.ieq(B.mod(F, 2), 0), B.ieq(m, h), h <= c, h <= N - 1 - c] + ([h <= L] if w is not None else [])
        return B.ite(B.and_(*mid), lambda: (prod(h) + prod(-h)) / 2,
                     lambda: B.ite(within(B, tau, *bounds), lambda: prod(tau), 0))
    return g


@contract("C03", functions=[COH + ".WignerVilleDistribution.run"])
def wigner_ville_definition(B):
    N, F, x, _, _, _, _, kw = std(B, window=False)
    o = B.new(COH, "WignerVilleDistribution", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, N)", B.ieq(B.shape(tfr), (F, N)))
    B.ensure("entry is the Fourier sum of the lag products",
             B.forall([F, N], lambda k, c: B.eq(B.at(tfr, k, c), B.dft(F, wv_kernel(B, x, N, F, c, (None, None)), k))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.ensure("frequency axis length", B.ieq(B.shape(f), (F,)))
    B.ensure("frequency axis", B.forall([F], lambda k: B.eq(B.at(f, k) * (2 * F), k)))
    B.ensure("time marginal", B.forall([N], lambda c: B.eq(B.sum(F, lambda k: B.at(tfr, k, c)), F * B.abs2(B.at(x, c)))))
    B.unchanged("x")


@contract("C04", functions=[COH + ".PseudoWignerVilleDistribution.run"])
def pseudo_wigner_ville_definition(B):
    N, F, x, L, w, T, t, kw = std(B, times="cols")
    o = B.new(COH, "PseudoWignerVilleDistribution", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))
    B.ensure("entry is the real part of the weighted Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.re(B.dft(F, wv_kernel(B, x, N, F, c, (w, L)), k)))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.ensure("frequency axis length", B.ieq(B.shape(f), (F,)))
    B.ensure("frequency axis", B.forall([F], lambda k: B.eq(B.at(f, k) * (2 * F), k)))
    B.ensure("time marginal", B.forall([T], lambda c: B.eq(B.sum(F, lambda k: B.at(tfr, k, c)),
                                                         F * B.re(B.at(w, L)) * B.abs2(B.at(x, c)))))
    B.unchanged("x", "w", "t")


@contract("C06", functions=[COH + ".MargenauHillDistribution.run"])
def margenau_hill_definition(B):
    N, F, x, _, _, T, t, kw = std(B, window=False, times=True)
    B.require(N <= F)
    o = B.new(COH, "MargenauHillDistribution", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))

    def kern(c):
        ti = B.at(t, c)

        def g(m):
            return B.ite(m <= ti, lambda: B.at(x, ti) * B.conj(B.at(x, ti - m)),
                         lambda: B.ite(F - m <= N - 1 - ti, lambda: B.at(x, ti) * B.conj(B.at(x, ti + F - m)), 0))
        return g
    B.ensure("entry is the real part of the Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.re(B.dft(F, kern(c), k)))))
    B.ensure("column sums", B.forall([T], lambda c: B.eq(B.sum(F, lambda k: B.at(tfr, k, c)), F * B.abs2(B.at(x, B.at(t, c))))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.unchanged("x", "t")


@contract("C06", functions=[COH + ".PseudoMargenauHillDistribution.run"])
def pseudo_margenau_hill_definition(B):
    N, F, x, L, w, T, t, kw = std(B, times="cols")
    o = B.new(COH, "PseudoMargenauHillDistribution", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))

    def kern(c):
        def g(m):
            tau = circ(B, F, m)
            ok = B.and_(within(B, tau, L, (F - 1) // 2), c - tau >= 0, c - tau < N)
            return B.ite(ok, lambda: B.at(w, L + tau) * B.at(x, c) * B.conj(B.at(x, c - tau)), 0)
        return g
    B.ensure("entry is the real part of the weighted Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.re(B.dft(F, kern(c), k)))))
    B.ensure("column sums", B.forall([T], lambda c: B.eq(B.sum(F, lambda k: B.at(tfr, k, c)),
                                                       F * B.re(B.at(w, L)) * B.abs2(B.at(x, c)))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.unchanged("x", "w", "t")


@contract("C06", functions=[COH + ".PseudoPageRepresentation.run"])
def pseudo_page_definition(B):
    N, F, x, L, w, T, t, kw = std(B, times="cols")
    o = B.new(COH, "PseudoPageRepresentation", x, **kw)
    tfr, ts, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))

    def kern(c):
        def g(m):
            return B.ite(B.and_(m <= L, m <= c), lambda: B.at(w, L + m) * B.at(x, c) * B.conj(B.at(x, c - m)), 0)
        return g
    B.ensure("entry is the real part of the causal weighted Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.re(B.dft(F, kern(c), k)))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.unchanged("x", "w", "t")


@contract("C05", functions=[COH + ".smoothed_pseudo_wigner_ville"], weight=1.5)
def smoothed_pwv_definition(B):
    N = B.int("N", 1)
    F = B.int("F", 1)
    L = B.int("L", 0)
    G = B.int("G", 0)
    T = B.int("T", 1)
    x = B.carray("x", N)
    h = B.carray("h", 2 * L + 1)
    g = B.rarray("g", 2 * G + 1, pos=True)
    t = B.iarray("t", T, lo=0, hi=N - 1)
    tfr = B.call(COH, "smoothed_pseudo_wigner_ville", x, timestamps=t, freq_bins=F, twindow=g, fwindow=h)
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))

    def smooth(ti, tau):
        """g-weighted average over the points p with ti-p+-|tau| inside the signal"""
        a = B.ite(tau >= 0, tau, -tau)
        lo = -B.min(G, N - 1 - ti - a)
        hi = B.min(G, ti - a)
        n = B.max(hi - lo + 1, 0)
        return B.ite(n >= 1, lambda: B.sum(n, lambda i: B.at(g, G + lo + i) * B.at(x, ti + tau - lo - i) * B.conj(B.at(x, ti - tau - lo - i)))
                     / B.sum(n, lambda i: B.at(g, G + lo + i)), 0)

    def kern(c):
        ti = B.at(t, c)

        def f(m):
            tau = circ(B, F, m)
            hh = F // 2
            mid = B.and_(B.ieq(B.mod(F, 2), 0), B.ieq(m, hh), hh <= ti, hh <= N - 1 - ti, hh <= L)
            return B.ite(mid, lambda: (B.at(h, L + hh) * smooth(ti, hh) + B.at(h, L - hh) * smooth(ti, -hh)) / 2,
                         lambda: B.ite(B.ieq(tau, 0), lambda: smooth(ti, 0),
                                       lambda: B.ite(within(B, tau, (F - 1) // 2, L), lambda: B.at(h, L + tau) * smooth(ti, tau), 0)))
        return f
    B.ensure("entry is the real part of the doubly smoothed Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.re(B.dft(F, kern(c), k)))))
    B.ensure("column sum is F times the locally averaged power",
             B.forall([T], lambda c: B.eq(B.sum(F, lambda k: B.at(tfr, k, c)), F * B.re(smooth(B.at(t, c), 0)))))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.unchanged("x", "h", "g", "t")


@contract("C05", functions=[COH + ".smoothed_pseudo_wigner_ville"])
def smoothed_pwv_rejects_even(B):
    N = B.int("N", 1)
    F = B.int("F", 1)
    Lh = B.int("Lh", 1)
    Lg = B.int("Lg", 1)
    B.require(B.or_(B.ieq(B.mod(Lh, 2), 0), B.ieq(B.mod(Lg, 2), 0)))
    x = B.carray("x", N)
    h = B.carray("h", Lh)
    g = B.rarray("g", Lg, pos=True)
    B.ensure("even-length windows are rejected",
             B.raises(lambda: B.call(COH, "smoothed_pseudo_wigner_ville", x, freq_bins=F, twindow=g, fwindow=h),
                      ("ValueError",)))
