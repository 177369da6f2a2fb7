"""Affine distributions (C31): axes and energy normalisation."""
from npv.registry import contract
from contracts.utils import trapz2
from contracts.wide import band_energy

AFF = "tftb.processing.affine"
KINDS = {"bertrand": "BertrandDistribution", "dflandrin": "DFlandrinDistribution",
         "unterberger": "UnterbergerDistribution"}


def band(B):
    lo = B.real("fmin", 0, 0.5, lopen=True, samp=(0.02, 0.4))
    hi = B.real("fmax", 0, 0.5, lopen=True, samp=(0.05, 0.5))
    B.require(hi > 1.05 * lo)
    return lo, hi


def instants(B, N):
    if B.choice("some instants", (False, True)):
        T, t0, s = B.int("T", 2, N), B.int("t0", 0, N - 1), B.int("s", 1, samp=(1, 3))
        B.require(t0 + (T - 1) * s <= N - 1)
        return T, lambda c: t0 + s * c, {"timestamps": B.darray("t", (T,), lambda c: t0 + s * c, kind="i")}
    return N, (lambda c: c), {}


def checks(B, N, V, T, at, lo, hi, x, tfr, ts, f, energy):
    B.ensure("shape (n_voices, T)", B.ieq(B.shape(tfr), (V, T)))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.ensure("time instants", B.and_(B.ieq(B.shape(ts), (T,)), B.forall([T], lambda c: B.ieq(B.at(ts, c), at(c)))))
    B.ensure("geometric frequencies", B.and_(B.ieq(B.shape(f), (V,)), B.forall([V], lambda k: B.eq(
        B.at(f, k), lo * B.pow(hi / lo, k / (V - 1))))))

    def trapz(v):
        def wt(k):
            a = B.at(f, k) - B.at(f, k - 1) if k > 0 else 0
            b = B.at(f, k + 1) - B.at(f, k) if k + 1 < V else 0
            return (a + b) / 2

        def wc(c):
            a = at(c) - at(c - 1) if c > 0 else 0
            b = at(c + 1) - at(c) if c + 1 < T else 0
            return (a + b) / 2
        return sum(wt(k) * wc(c) * v(k, c) for k in range(V) for c in range(T))
    big = trapz(lambda k, c: B.abs(B.at(tfr, k, c)))
    B.ensure("integral is the band energy per voice", B.eq(
        trapz(lambda k, c: B.at(tfr, k, c)) * V, energy, scale=big * V))


def affine(kind):
    def run(B):
        N, V = B.int("N", 6, samp=(6, 28)), B.int("V", 2, samp=(2, 20))
        lo, hi = band(B)
        B.require((N - 1) * lo >= 6 * hi)          # enough samples for the cubic interpolation of the lowest voice
        x = B.carray("x", N)
        T, at, kw = instants(B, N)
        E = band_energy(B, N, x, lo, hi)
        B.require(E > 1e-9)
        o = B.new(AFF, KINDS[kind], x, fmin=lo, fmax=hi, n_voices=V, **kw)
        tfr, ts, f = B.method(o, "run")
        checks(B, N, V, T, at, lo, hi, x, tfr, ts, f, E)
        B.unchanged(*(["x", "t"] if kw else ["x"]))
    run.__name__ = kind
    return run


for _k in KINDS:
    contract("C31", functions=[AFF + "." + KINDS[_k] + ".run", AFF + ".AffineDistribution._normalize"],
             symbolic=False)(affine(_k))


@contract("C31", functions=[AFF + ".Scalogram.run"], symbolic=False)
def scalogram(B):
    N, V = B.int("N", 4, samp=(4, 28)), B.int("V", 2, samp=(2, 20))
    lo, hi = band(B)
    x = B.carray("x", N)
    T, at, kw = instants(B, N)
    if B.choice("mother wavelet", ("morlet", "default", "mexican hat")) != "default":
        kw = dict(kw, waveparams=0 if B.ilog["mother wavelet"] == "mexican hat" else B.int("nh0", 1, samp=(1, 12)))
    m = sum(B.re(B.at(x, i)) for i in range(N)) / N
    y = B.darray("centred", (N,), lambda i: B.re(B.at(x, i)) - m)
    E2 = band_energy(B, N, y, lo, hi)
    B.require(E2 > 1e-9)
    o = B.new(AFF, "Scalogram", x, fmin=lo, fmax=hi, n_voices=V, **kw)
    tfr, ts, f, wt = B.method(o, "run")
    checks(B, N, V, T, at, lo, hi, x, tfr, ts, f, E2)
    B.ensure("transform has the same shape", B.ieq(B.shape(wt), (V, T)))
    E = sum(B.abs2(B.at(wt, k, c)) for k in range(V) for c in range(T))
    S = sum(B.at(tfr, k, c) for k in range(V) for c in range(T))
    B.ensure("proportional to the squared wavelet transform", B.forall([V, T], lambda k, c: B.eq(
        B.at(tfr, k, c) * E, B.abs2(B.at(wt, k, c)) * S)))
    B.unchanged(*(["x", "t"] if "timestamps" in kw else ["x"]))


# ---------------------------------------------------------------- proved parts
def uniform(B, N):
    T, t0, s = B.int("T", 2, samp=(2, 12)), B.int("t0", 0, samp=(0, 5)), B.int("s", 1, samp=(1, 3))
    B.require(t0 + (T - 1) * s <= N - 1)
    return T, t0, s, B.darray("t", (T,), lambda c: t0 + s * c, kind="i")


def normalised(B, N, V, T, t0, s, lo, hi, tfr, ts, f, energy):
    B.ensure("shape (n_voices, T)", B.ieq(B.shape(tfr), (V, T)))
    B.ensure("the result is real", B.not_(B.is_complex(tfr)))
    B.ensure("time instants", B.and_(B.ieq(B.shape(ts), (T,)), B.forall([T], lambda c: B.ieq(B.at(ts, c), t0 + s * c))))
    B.ensure("geometric frequencies", B.and_(B.ieq(B.shape(f), (V,)), B.forall([V], lambda k: B.eq(
        B.at(f, k), lo * B.pow(hi / lo, k / (V - 1))))))
    B.ensure("integral is the band energy per voice", B.eq(
        trapz2(B, V, T, lambda k, c: B.at(tfr, k, c), s, lambda k: B.at(f, k)) * V, energy))


@contract("C31", functions=[AFF + ".Scalogram.run"], budget=150, uses=("tftb.processing.utils.integrate_2d",))
def scalogram_normalised(B):
    N, V = B.int("N", 4, samp=(4, 24)), B.int("V", 2, samp=(2, 12))
    lo, hi = band(B)
    x = B.carray("x", N)
    if B.choice("some instants", (False, True)):
        T, t0, s, ts = uniform(B, N)
        kw = {"timestamps": ts}
    else:
        T, t0, s, kw = N, 0, 1, {}
    if B.choice("wavelet length given", (False, True)):
        kw["waveparams"] = B.real("nh0", 1, samp=(1, 12))
    m = B.sum(N, lambda i: B.re(B.at(x, i))) / N
    y = B.darray("centred", (N,), lambda i: B.re(B.at(x, i)) - m)
    E = band_energy(B, N, y, lo, hi)
    B.require(E > 1e-9)
    B.nonzero_divisors("the scalogram's integral is not zero")
    o = B.new(AFF, "Scalogram", x, fmin=lo, fmax=hi, n_voices=V, **kw)
    tfr, tt, f, wt = B.method(o, "run")
    normalised(B, N, V, T, t0, s, lo, hi, tfr, tt, f, E)
    B.ensure("transform has the same shape", B.ieq(B.shape(wt), (V, T)))
    P = trapz2(B, V, T, lambda k, c: B.abs2(B.at(wt, k, c)), s, lambda k: B.at(f, k))
    B.ensure("squared modulus of the wavelet transform, normalised", B.forall([V, T], lambda k, c: B.eq(
        B.at(tfr, k, c) * P * V, B.abs2(B.at(wt, k, c)) * E)))
    B.unchanged(*(["x", "t"] if "timestamps" in kw else ["x"]))


def affine_normalised(kind):
    def run(B):
        N, V = B.int("N", 6, samp=(6, 28)), B.int("V", 2, samp=(2, 20))
        lo, hi = band(B)
        B.require((N - 1) * lo >= 6 * hi)
        x = B.carray("x", N)
        T, t0, s, ts = uniform(B, N)
        E = band_energy(B, N, x, lo, hi)
        B.require(E > 1e-9)
        B.nonzero_divisors("the distribution's integral is not zero")
        o = B.new(AFF, KINDS[kind], x, fmin=lo, fmax=hi, n_voices=V, timestamps=ts)
        tfr, tt, f = B.method(o, "run")
        normalised(B, N, V, T, t0, s, lo, hi, tfr, tt, f, E)
        B.unchanged("x", "t")
    run.__name__ = kind + "_normalised"
    return run


contract("C31", functions=[AFF + ".BertrandDistribution.run", AFF + ".AffineDistribution._normalize"], budget=400,
         uses=("tftb.processing.utils.integrate_2d",))(affine_normalised("bertrand"))
