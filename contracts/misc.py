"""Miscellaneous generators: atoms (C13), wavelets (C16), doppler (C32)."""
from npv.registry import contract

M = "tftb.generators.misc"
ATOMS = [M + ".atoms", "tftb.generators.amplitude_modulated.amgauss", "tftb.generators.frequency_modulated.fmconst"]


def atom(B, n, row, k):
    """sample k of the Gaussian atom (t0, f0, T, A)"""
    t0 = B.round(B.max(B.min(row(0), n), 1))
    f0 = B.max(B.min(row(1), 0.5), 0)
    u = (k + 1 - t0) / row(2)
    return row(3) * B.exp(-B.pi * u * u) * B.cis(f0 * (k - t0))


def coords(B, K):
    a = B.rarray("t0", K)
    f = B.rarray("f0", K)
    T = B.rarray("T", K, pos=True)
    A = B.rarray("A", K)
    return B.darray("coordinates", (K, 4), lambda i, j: B.ite(
        B.ieq(j, 0), lambda: 20 * B.at(a, i), lambda: B.ite(
            B.ieq(j, 1), lambda: B.at(f, i), lambda: B.ite(
                B.ieq(j, 2), lambda: 20 * B.at(T, i), lambda: B.at(A, i)))))


@contract("C13", functions=ATOMS)
def superposition(B):
    n, K = B.int("n", 1), B.int("K", 0, samp=(0, 6))
    co = coords(B, K)
    y = B.call(M, "atoms", n, co)
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("complex samples", B.is_complex(y))
    B.ensure("sum of the listed atoms", B.forall([n], lambda k: B.eq(
        B.at(y, k), B.sum(K, lambda j: atom(B, n, lambda c: B.at(co, j, c), k)))))
    B.unchanged("coordinates")


@contract("C13", functions=ATOMS)
def single_row(B):
    n = B.int("n", 1)
    v = B.rarray("row", 4, nonneg=True)
    B.require(B.at(v, 2) > 0)
    y = B.call(M, "atoms", n, v)
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("the atom", B.forall([n], lambda k: B.eq(B.at(y, k), atom(B, n, lambda c: B.at(v, c), k))))
    B.unchanged("row")


# ---------------------------------------------------------------- doppler
def geometry(B, k, fs, d, v, t0):
    """time from closest approach and distance of the source at sample k"""
    t = (k + 1 - t0) / fs
    return t, B.sqrt(d * d + v * v * t * t)


def doppler_args(B):
    n = B.int("n", 2)
    fs, d = B.real("fs", 0, lopen=True, samp=(0.5, 1000)), B.real("d", 0, lopen=True, samp=(0.01, 100))
    f0 = B.real("f0", 0.001, samp=(0.01, 500))
    B.require(f0 <= fs / 2)
    v, c = B.real("v", 0, samp=(0, 100)), B.real("c", 0, lopen=True, samp=(1, 1000))
    return n, fs, f0, d, v, c


def doppler_law(B, n, fs, f0, d, v, t0, c, fm, am, law):
    B.ensure("n samples each", B.and_(B.ieq(B.shape(fm), (n,)), B.ieq(B.shape(am), (n,)), B.ieq(B.shape(law), (n,))))

    def q(k):
        return geometry(B, k, fs, d, v, t0)
    B.ensure("unit modulus", B.forall([n], lambda k: B.eq(B.abs2(B.at(fm, k)), 1)))
    B.ensure("phase of the delayed carrier", B.forall([n], lambda k: B.eq(
        B.at(fm, k), B.cis(f0 * (q(k)[0] - q(k)[1] / c)))))
    B.ensure("amplitude falls with the root of the distance",
             B.forall([n], lambda k: B.eq(B.at(am, k) * B.at(am, k) * q(k)[1], 1)))
    B.ensure("amplitude is positive", B.forall([n], lambda k: B.at(am, k) > 0))
    B.ensure("law is the derivative of the phase", B.forall([n], lambda k: B.eq(
        B.at(law, k), f0 / fs * (1 - v * v * q(k)[0] / (c * q(k)[1])))))


@contract("C32", functions=[M + ".doppler"])
def doppler(B):
    n, fs, f0, d, v, c = doppler_args(B)
    t0 = B.real("t0", 1)
    B.require(t0 <= n)
    fm, am, law = B.call(M, "doppler", n, fs, f0, d, v, t0, c)
    doppler_law(B, n, fs, f0, d, v, t0, c, fm, am, law)


@contract("C32", functions=[M + ".doppler"])
def doppler_defaults(B):
    n, fs, f0, d, v, c = doppler_args(B)
    fm, am, law = B.call(M, "doppler", n, fs, f0, d, v)
    doppler_law(B, n, fs, f0, d, v, n / 2, 340, fm, am, law)


@contract("C32", functions=[M + ".doppler"])
def closest_approach(B):
    n, fs, f0, d, v, c = doppler_args(B)
    t0 = B.int("t0", 1)
    B.require(t0 <= n)
    fm, am, law = B.call(M, "doppler", n, fs, f0, d, v, t0, c)
    B.ensure("carrier frequency at closest approach", B.eq(B.at(law, t0 - 1), f0 / fs))
    B.ensure("loudest at closest approach", B.forall([n], lambda k: B.leq(B.at(am, k), B.at(am, t0 - 1))))


NOI = "tftb.generators.noise"


@contract("C32", functions=[NOI + ".dopnoise"])
def dopnoise_law(B):
    n, fs, f0, d, v, c = doppler_args(B)
    t0 = B.real("t0", 1)
    B.require(t0 <= n)
    B.nonzero_divisors("the drawn noise signal is not identically zero (almost surely)")
    y, law = B.call(NOI, "dopnoise", n, fs, f0, d, v, t0, c)
    B.ensure("law has n entries", B.ieq(B.shape(law), (n,)))

    def q(k):
        return geometry(B, k, fs, d, v, t0)
    B.ensure("law of the moving source", B.forall([n], lambda k: B.eq(
        B.at(law, k), f0 / fs * (1 - v * v * q(k)[0] / (c * q(k)[1])))))


@contract("C16", functions=[NOI + ".dopnoise"])
def dopnoise_energy(B):
    n, fs, f0, d, v, c = doppler_args(B)
    t0 = B.real("t0", 1)
    B.require(t0 <= n)
    B.nonzero_divisors("the drawn noise signal is not identically zero (almost surely)")
    y, law = B.call(NOI, "dopnoise", n, fs, f0, d, v, t0, c)
    unit_energy(B, y, n)
    B.ensure("complex samples", B.is_complex(y))


# ---------------------------------------------------------------- wavelets
def unit_energy(B, y, n):
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("unit energy", B.eq(B.sum(n, lambda k: B.abs2(B.at(y, k))), 1))


@contract("C16", functions=[M + ".altes"])
def altes(B):
    n = B.int("n", 1)
    lo, hi, al = B.real("fmin", 0, 0.5, lopen=True, samp=(0.01, 0.5)), B.real("fmax", 0, 0.5, lopen=True), B.real("alpha", 1, lopen=True, samp=(2, 1000))
    B.require(lo < hi)
    B.nonzero_divisors("the Altes waveform is not identically zero")
    y = B.call(M, "altes", n, lo, hi, al)
    unit_energy(B, y, n)


@contract("C16", functions=[M + ".klauder"])
def klauder(B):
    n, a, f0 = B.int("n", 2), B.real("attenuation", 0.5, 20), B.real("f0", 0.01, 0.49)
    B.require(4 * B.pi * a * f0 > 1)
    y = B.call(M, "klauder", n, a, f0)
    unit_energy(B, y, n)


@contract("C16", functions=[M + ".gdpower"])
def gdpower(B):
    n, deg, rate = B.int("n", 3), B.real("degree", samp=(-3, 4), nice=(0, 1, -1, 2)), B.real("rate", samp=(-2, 2), nice=(1,))
    B.require(B.not_(B.eq(rate, 0)))
    B.nonzero_divisors("the waveform is not identically constant")
    y, gpd, nu = B.call(M, "gdpower", n, deg, rate)
    unit_energy(B, y, n)
    B.ensure("zero mean", B.eq(B.sum(n, lambda k: B.at(y, k)), 0))
    B.ensure("frequencies and delays correspond", B.ieq(B.shape(gpd), B.shape(nu)))
    B.ensure("frequency axis", B.and_(B.ieq(B.shape(nu), (B.ceil(n / 2),)), B.forall(
        [B.shape(nu)[0]], lambda k: B.eq(B.at(nu, k), 0.5 * (k + 1) / B.ceil(n / 2)))))


@contract("C16", functions=[M + ".mexhat"])
def mexhat(B):
    nu = B.real("nu", 0, 0.5, lopen=True, samp=(0.01, 0.5))
    y = B.call(M, "mexhat", nu)
    h = B.ceil(1.5 / nu)
    B.ensure("odd length", B.ieq(B.shape(y), (2 * h + 1,)))
    a = B.pi * B.pi * nu * nu
    B.ensure("Mexican hat", B.forall([2 * h + 1], lambda k: B.eq(
        B.at(y, k), nu * B.sqrt(B.pi) / 2 * B.exp(-a * (k - h) * (k - h)) * (1 - 2 * a * (k - h) * (k - h)))))
