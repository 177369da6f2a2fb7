"""Reassigned spectrogram and reassigned pseudo Wigner-Ville (C30)."""
from npv.registry import contract
from contracts.stft import circ
from contracts.cohen import wv_kernel, within

RE = "tftb.processing.reassigned"


def times(B, N):
    """regularly spaced instants inside the signal"""
    T = B.int("T", 1, N)
    t0 = B.int("t0", 0, N - 1)
    s = B.int("s", 1, samp=(1, 3))
    B.require(t0 + (T - 1) * s <= N - 1)
    return T, t0, s, B.darray("t", (T,), lambda c: t0 + s * c, kind="i")


def field(B, re, k, c):
    v = B.at(re, k, c)
    return B.is_inf(B.re(v)), B.re(v), B.im(v)


def moved(B, F, T, tfr, rtfr, re, target):
    """rtfr is tfr with every marked cell moved to its target and the others left in place"""
    def lands(k, d, r, c):
        stay, a, b = field(B, re, k, d)
        tr, tc = target(a, b, d)
        return B.ite(stay, lambda: B.and_(B.ieq(k, r), B.ieq(d, c)), lambda: B.and_(B.ieq(tr, r), B.ieq(tc, c)))
    B.ensure("each cell is moved to its place in the field", B.forall([F, T], lambda r, c: B.eq(
        B.at(rtfr, r, c), B.sum(F, lambda k: B.sum(T, lambda d: B.ite(
            lands(k, d, r, c), lambda: B.at(tfr, k, d), 0))))))


def gate(B, F, T, tfr, re, thr):
    def ok(k, c):
        stay, a, b = field(B, re, k, c)
        p = B.abs(B.at(tfr, k, c))
        return B.and_(B.implies(p > thr * (1 + B.rounding), B.not_(stay)), B.implies(p < thr * (1 - B.rounding), stay))
    B.ensure("exactly the cells above the threshold are moved", B.forall([F, T], ok))


def near(B, v, r):
    """r is a nearest integer of v"""
    return B.abs(v - r) <= 0.5 + 1e-6 * (1 + B.abs(v))


def near_mod(B, v, r, F):
    """r is a nearest integer of v, modulo F"""
    d = B.mod(v - r + F / 2, F) - F / 2
    return B.and_(0 <= r, r < F, B.ieq(r, B.round(r)), B.abs(d) <= 0.5 + 1e-6 * (1 + B.abs(v)))


def spectro(B, N, F, T, L, x, w, t0, s, at, tfr, rtfr, re):
    B.ensure("shapes", B.and_(*[B.ieq(B.shape(a), (F, T)) for a in (tfr, rtfr, re)]))
    M = B.min(L, (F - 1) // 2)
    d = B.call("tftb.processing.utils", "derive_window", w) if L > 0 else None

    def lag_ok(c, tau):
        return B.and_(within(B, tau, M), at(c) + tau >= 0, at(c) + tau < N)

    def kern(c, win):
        def g(m):
            tau = circ(B, F, m)
            return B.ite(lag_ok(c, tau), lambda: B.at(x, at(c) + tau) * B.conj(win(tau)), 0)
        return g

    def energy(c):
        lo, hi = B.min(M, at(c)), B.min(M, N - 1 - at(c))
        return B.sum(lo + hi + 1, lambda i: B.abs2(B.at(w, L - lo + i)))

    def h(tau):
        return B.at(w, L + tau)

    def th(tau):
        return tau * B.at(w, L + tau)

    def dh(tau):
        return B.at(d, L + tau) if L > 0 else 0
    B.ensure("plain distribution is the spectrogram", B.forall([F, T], lambda k, c: B.eq(
        B.at(tfr, k, c) * energy(c), B.abs2(B.dft(F, kern(c, h), k)))))
    B.ensure("total is conserved", B.eq(B.sum(F, lambda k: B.sum(T, lambda c: B.at(rtfr, k, c))),
                                        B.sum(F, lambda k: B.sum(T, lambda c: B.at(tfr, k, c)))))
    lo, hi = at(0), at(T - 1)
    thr = B.sum(hi - lo + 1, lambda i: B.abs2(B.at(x, lo + i))) / (hi - lo + 1) / 10 ** 6
    gate(B, F, T, tfr, re, thr)
    moved(B, F, T, tfr, rtfr, re, lambda a, b, c: (a, b))

    def centroid(k, c):
        stay, a, b = field(B, re, k, c)
        if stay or B.abs(B.at(tfr, k, c)) <= 1.5 * thr:
            return True
        S = B.dft(F, kern(c, h), k)
        dt, df = B.dft(F, kern(c, th), k) / S, B.dft(F, kern(c, dh), k) / S
        row = near_mod(B, k - B.im(df) * F / (2 * B.pi), a, F)
        v = c + B.re(dt)
        col = B.and_(0 <= b, b < T, B.ieq(b, B.round(b)),
                     B.or_(near(B, v, b), B.and_(B.ieq(b, 0), v < 0), B.and_(B.ieq(b, T - 1), v > T - 1)))
        return B.and_(row, col) if s == 1 else row
    B.ensure("field is the local centroid", B.forall([F, T], centroid))


@contract("C30", functions=[RE + ".spectrogram"], symbolic=False)
def reassigned_spectrogram(B):
    N, F, L = B.int("N", 1, samp=(1, 14)), B.int("F", 1, samp=(1, 14)), B.int("L", 0, samp=(0, 6))
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 1)
    B.require(B.not_(B.eq(B.at(w, L), 0)))
    T, t0, s, t = times(B, N)
    tfr, rtfr, re = B.call(RE, "spectrogram", x, t, F, w)
    spectro(B, N, F, T, L, x, w, t0, s, lambda c: t0 + s * c, tfr, rtfr, re)
    B.unchanged("x", "w", "t")


@contract("C30", functions=[RE + ".spectrogram"], symbolic=False)
def reassigned_spectrogram_default(B):
    N = B.int("N", 1, samp=(1, 28))
    x = B.carray("x", N)
    tfr, rtfr, re = B.call(RE, "spectrogram", x)
    n = N // 4 + 1 - (N // 4) % 2
    w = B.darray("w", (n,), lambda i: B.hamming(n, i))
    spectro(B, N, N, N, (n - 1) // 2, x, w, 0, 1, lambda c: c, tfr, rtfr, re)
    B.unchanged("x")


def pwv(B, N, F, T, L, x, w, at, tfr, rtfr, re):
    B.ensure("shapes", B.and_(*[B.ieq(B.shape(a), (F, T)) for a in (tfr, rtfr, re)]))
    u = B.darray("u", (2 * L + 1,), lambda i: B.at(w, i) / B.at(w, L))
    d = B.call("tftb.processing.utils", "derive_window", u) if L > 0 else B.darray("d", (1,), lambda i: 0.0)

    def trans(win, k, c):
        return B.dft(F, wv_kernel(B, x, N, F, at(c), (win, L)), k)
    B.ensure("plain distribution is the pseudo Wigner-Ville", B.forall([F, T], lambda k, c: B.eq(
        B.at(tfr, k, c), B.re(trans(u, k, c)))))
    B.ensure("column totals are conserved", B.forall([T], lambda c: B.eq(
        B.sum(F, lambda k: B.at(rtfr, k, c)), B.sum(F, lambda k: B.at(tfr, k, c)))))
    lo, hi = at(0), at(T - 1)
    thr = B.sum(hi - lo + 1, lambda i: B.abs2(B.at(x, lo + i))) / (hi - lo + 1) / 10 ** 6
    gate(B, F, T, tfr, re, thr)
    moved(B, F, T, tfr, rtfr, re, lambda a, b, c: (a, c))

    def centroid(k, c):
        stay, a, b = field(B, re, k, c)
        if stay or B.abs(B.at(tfr, k, c)) <= 1.5 * thr:
            return True
        q = B.im(trans(d, k, c)) / B.at(tfr, k, c)
        return near_mod(B, k - q * F / (2 * B.pi), a, F)
    B.ensure("field is the local centre of gravity", B.forall([F, T], centroid))


@contract("C30", functions=[RE + ".pseudo_wigner_ville"], symbolic=False)
def reassigned_pseudo_wigner_ville(B):
    N, F, L = B.int("N", 1, samp=(1, 14)), B.int("F", 1, samp=(1, 14)), B.int("L", 0, samp=(0, 6))
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 1)
    B.require(B.not_(B.eq(B.at(w, L), 0)))
    T, t0, s, t = times(B, N)
    tfr, rtfr, re = B.call(RE, "pseudo_wigner_ville", x, t, F, w)
    pwv(B, N, F, T, L, x, w, lambda c: t0 + s * c, tfr, rtfr, re)
    B.unchanged("x", "w", "t")


@contract("C30", functions=[RE + ".pseudo_wigner_ville"], symbolic=False)
def reassigned_pseudo_wigner_ville_default(B):
    N = B.int("N", 1, samp=(1, 28))
    x = B.carray("x", N)
    tfr, rtfr, re = B.call(RE, "pseudo_wigner_ville", x)
    n = N // 4 + 1 - (N // 4) % 2
    w = B.darray("w", (n,), lambda i: B.hamming(n, i))
    pwv(B, N, N, N, (n - 1) // 2, x, w, lambda c: c, tfr, rtfr, re)
    B.unchanged("x")


# ---------------------------------------------------------------- for all sizes: definition and totals
def regular(B, N):
    T, t0, s = B.int("T", 1, N), B.int("t0", 0, N - 1), B.int("s", 1, samp=(1, 3))
    B.require(t0 + (T - 1) * s <= N - 1)
    return T, (lambda c: t0 + s * c), B.darray("t", (T,), lambda c: t0 + s * c, kind="i")


@contract("C30", functions=[RE + ".pseudo_wigner_ville"], budget=120)
def pwv_mass(B):
    N, F, L = B.int("N", 1, samp=(1, 14)), B.int("F", 1, samp=(1, 14)), B.int("L", 0, samp=(0, 6))
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 1)
    B.require(B.not_(B.eq(B.at(w, L), 0)))
    T, at, t = regular(B, N)
    tfr, rtfr, re = B.call(RE, "pseudo_wigner_ville", x, t, F, w)
    B.ensure("shapes", B.and_(*[B.ieq(B.shape(a), (F, T)) for a in (tfr, rtfr, re)]))
    B.ensure("plain distribution is the pseudo Wigner-Ville", B.forall([F, T], lambda k, c: B.eq(
        B.at(tfr, k, c) * B.at(w, L), B.re(B.dft(F, wv_kernel(B, x, N, F, at(c), (w, L)), k)))))
    B.ensure("column totals are conserved", B.forall([T], lambda c: B.eq(
        B.sum(F, lambda k: B.at(rtfr, k, c)), B.sum(F, lambda k: B.at(tfr, k, c)))))
    B.unchanged("x", "w", "t")


@contract("C30", functions=[RE + ".spectrogram"], budget=120)
def spec_mass(B):
    N, F, L = B.int("N", 1, samp=(1, 14)), B.int("F", 1, samp=(1, 14)), B.int("L", 0, samp=(0, 6))
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 1)
    B.require(B.not_(B.eq(B.at(w, L), 0)))
    T, at, t = regular(B, N)
    tfr, rtfr, re = B.call(RE, "spectrogram", x, t, F, w)
    B.ensure("shapes", B.and_(*[B.ieq(B.shape(a), (F, T)) for a in (tfr, rtfr, re)]))
    M = B.min(L, (F - 1) // 2)

    def kern(c):
        def g(m):
            tau = circ(B, F, m)
            return B.ite(B.and_(within(B, tau, M), at(c) + tau >= 0, at(c) + tau < N),
                         lambda: B.at(x, at(c) + tau) * B.conj(B.at(w, L + tau)), 0)
        return g

    def energy(c):
        lo, hi = B.min(M, at(c)), B.min(M, N - 1 - at(c))
        return B.sum(lo + hi + 1, lambda i: B.abs2(B.at(w, L - lo + i)))
    B.ensure("plain distribution is the spectrogram", B.forall([F, T], lambda k, c: B.eq(
        B.at(tfr, k, c) * energy(c), B.abs2(B.dft(F, kern(c), k)))))
    B.ensure("total is conserved", B.eq(B.sum(T, lambda c: B.sum(F, lambda k: B.at(rtfr, k, c))),
                                        B.sum(T, lambda c: B.sum(F, lambda k: B.at(tfr, k, c)))))
    B.unchanged("x", "w", "t")
