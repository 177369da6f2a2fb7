"""C12: documented argument ranges are enforced, arguments inside them are accepted."""
from npv.registry import contract

FM, ANA, M, NOI = ("tftb.generators." + x for x in ("frequency_modulated", "analytic_signals", "misc", "noise"))
COH, RE, PP = ("tftb.processing." + x for x in ("cohen", "reassigned", "postprocessing"))
FD, TD, AMB = ("tftb.processing." + x for x in ("freq_domain", "time_domain", "ambiguity"))
G = ("TypeError", "ValueError", "AssertionError")


def rejects(B, what, mod, name, *a, **k):
    B.ensure(what + " is rejected", B.raises(lambda: B.call(mod, name, *a, **k), G))


def above(B, name, bound, *nice):
    """a real number outside [-bound, bound]"""
    f = B.real(name, nice=nice, samp=(-2, 2))
    B.require(B.or_(f > bound, f < -bound))
    return f


def outside(B, name, lo, hi, *nice):
    f = B.real(name, nice=nice, samp=(lo - 2, hi + 2))
    B.require(B.or_(f < lo, f > hi))
    return f


# ---------------------------------------------------------------- point counts
@contract("C12", functions=[FM + ".fmconst"])
def fmconst_count(B):
    rejects(B, "a point count of zero or less", FM, "fmconst", -B.int("m", 0), B.real("f", -0.5, 0.5))


@contract("C12", functions=[FM + ".fmlin"])
def fmlin_count(B):
    rejects(B, "a point count of zero or less", FM, "fmlin", -B.int("m", 0), B.real("a", -0.5, 0.5), B.real("b", -0.5, 0.5))


@contract("C12", functions=[M + ".klauder"])
def klauder_count(B):
    rejects(B, "a point count of zero or less", M, "klauder", -B.int("m", 0), B.real("att", 0.5, 20), B.real("f", 0.01, 0.49))


@contract("C12", functions=[NOI + ".noisecg"])
def noisecg_count(B):
    rejects(B, "a point count of zero or less", NOI, "noisecg", -B.int("m", 0))


@contract("C12", functions=[ANA + ".anaask", ANA + ".anabpsk"])
def keying_count(B):
    name = B.choice("generator", ("anaask", "anabpsk"))
    rejects(B, "a point count of zero or less", ANA, name, -B.int("m", 0), B.int("c", 1), B.real("f", 0, 0.5))


# ---------------------------------------------------------------- frequencies
@contract("C12", functions=[FM + ".fmconst"])
def fmconst_frequency(B):
    rejects(B, "a frequency beyond one half", FM, "fmconst", B.int("n", 1), above(B, "f", 0.5, 0.5001, -0.51))


@contract("C12", functions=[FM + ".fmlin"])
def fmlin_first(B):
    rejects(B, "a start frequency beyond one half", FM, "fmlin", B.int("n", 1), above(B, "a", 0.5, 0.5001, -0.51), B.real("b", -0.5, 0.5))


@contract("C12", functions=[FM + ".fmlin"])
def fmlin_last(B):
    rejects(B, "a final frequency beyond one half", FM, "fmlin", B.int("n", 1), B.real("a", -0.5, 0.5), above(B, "b", 0.5, 0.5001, -0.51))


@contract("C12", functions=[FM + ".fmodany"])
def fmodany_frequency(B):
    n = B.int("n", 1)
    i = B.int("i", 0, n - 1)
    law = B.rarray("law", n)
    B.require(B.or_(B.at(law, i) > 0.5, B.at(law, i) < -0.5))
    rejects(B, "a law beyond one half", FM, "fmodany", law)


@contract("C12", functions=[M + ".klauder"])
def klauder_frequency(B):
    f = B.real("f", nice=(0, 0.5, -0.1, 0.6), samp=(-1, 1))
    B.require(B.or_(f <= 0, f >= 0.5))
    rejects(B, "a centre frequency outside (0, 1/2)", M, "klauder", B.int("n", 2), B.real("att", 0.5, 20), f)


@contract("C12", functions=[M + ".mexhat"])
def mexhat_frequency(B):
    rejects(B, "a central frequency outside [0, 1/2]", M, "mexhat", outside(B, "f", 0, 0.5, 0.51, -0.01))


# ---------------------------------------------------------------- centres, distance, rate
@contract("C12", functions=[FM + ".fmodany"])
def fmodany_centre(B):
    n = B.int("n", 1)
    t = B.int("t", -5, None, samp=(-5, 40))
    B.require(B.or_(t < 1, t > n))
    rejects(B, "a time centre outside the signal", FM, "fmodany", B.rarray("law", n, lo=-0.5, hi=0.5), t)


@contract("C12", functions=[FM + ".fmodany"])
def fmodany_shape(B):
    n, m = B.int("n", 1), B.int("m", 2)
    rejects(B, "a law of several columns", FM, "fmodany", B.rarray("law", n, m, lo=-0.5, hi=0.5))


def dop(B):
    n, fs, v = B.int("n", 2), B.real("fs", 0, lopen=True), B.real("v", 0)
    f0, d = B.real("f0", 0), B.real("d", 0, lopen=True)
    t0 = B.real("t0", 1)
    return n, fs, f0, d, v, t0


@contract("C12", functions=[M + ".doppler"])
def doppler_distance(B):
    n, fs, f0, d, v, t0 = dop(B)
    rejects(B, "a distance that is not positive", M, "doppler", n, fs, f0, -B.real("back", 0), v, t0)


@contract("C12", functions=[M + ".doppler"])
def doppler_rate(B):
    n, fs, f0, d, v, t0 = dop(B)
    rejects(B, "a negative sampling frequency", M, "doppler", n, -fs, f0, d, v, t0)


@contract("C12", functions=[M + ".doppler"])
def doppler_centre(B):
    n, fs, f0, d, v, t0 = dop(B)
    t = B.real("t", nice=(0, 0.5), samp=(-5, 60))
    B.require(B.or_(t < 1, t > n))
    rejects(B, "a time centre outside the signal", M, "doppler", n, fs, f0, d, v, t)


@contract("C12", functions=[M + ".doppler"])
def doppler_frequency(B):
    n, fs, f0, d, v, t0 = dop(B)
    f = B.real("f", samp=(-3, 30))
    B.require(B.or_(f < 0, f > fs / 2))
    rejects(B, "a source frequency outside [0, fs/2]", M, "doppler", n, fs, f, d, v, t0)


@contract("C12", functions=[M + ".doppler"])
def doppler_speed(B):
    n, fs, f0, d, v, t0 = dop(B)
    s = B.real("s", 0, lopen=True)
    rejects(B, "a negative target speed", M, "doppler", n, fs, f0, d, -s, t0)


@contract("C12", functions=[M + ".gdpower"])
def gdpower_rate(B):
    rejects(B, "a zero rate", M, "gdpower", B.int("n", 1), B.real("degree", samp=(-3, 4), nice=(0, 1)), 0.0)


# ---------------------------------------------------------------- windows
@contract("C12", functions=[COH + ".smoothed_pseudo_wigner_ville"])
def spwv_frequency_window(B):
    N, L = B.int("N", 1), B.int("L", 0)
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 2)
    rejects(B, "an even-length frequency window", COH, "smoothed_pseudo_wigner_ville", x, fwindow=w)


@contract("C12", functions=[COH + ".smoothed_pseudo_wigner_ville"])
def spwv_time_window(B):
    N, L = B.int("N", 1), B.int("L", 0)
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 2)
    rejects(B, "an even-length time window", COH, "smoothed_pseudo_wigner_ville", x, twindow=w)


@contract("C12", functions=[RE + ".spectrogram", RE + ".pseudo_wigner_ville"])
def reassigned_window(B):
    N, L = B.int("N", 1), B.int("L", 0)
    x, w = B.carray("x", N), B.rarray("w", 2 * L + 2)
    f, k = B.choice("function", (("spectrogram", "window"), ("pseudo_wigner_ville", "fwindow")))
    rejects(B, "an even-length window", RE, f, x, **{k: w})


@contract("C12", functions=[RE + ".spectrogram"], symbolic=False)
def reassigned_times(B):
    N, T = B.int("N", 3), B.int("T", 3)
    B.require(T <= N)
    x, t = B.carray("x", N), B.iarray("t", T, lo=0, hi=N - 1)
    i = B.int("i", 0, T - 3)
    B.require(B.not_(B.ieq(B.at(t, i + 1) - B.at(t, i), B.at(t, i + 2) - B.at(t, i + 1))))
    rejects(B, "an irregular time sampling", RE, "spectrogram", x, t)


# ---------------------------------------------------------------- matrices where vectors are expected
@contract("C12", functions=[FD + ".locfreq", FD + ".inst_freq", FD + ".group_delay", AMB + ".wide_band"])
def matrices(B):
    n, m = B.int("n", 2), B.int("m", 2)
    mod, name = B.choice("function", ((FD, "locfreq"), (FD, "inst_freq"), (FD, "group_delay"), (AMB, "wide_band")))
    rejects(B, "a matrix", mod, name, B.carray("x", n, m))


@contract("C12", functions=[FD + ".inst_freq"])
def inst_freq_times(B):
    n, p, q = B.int("n", 3), B.int("p", 2), B.int("q", 2)
    rejects(B, "a matrix of instants", FD, "inst_freq", B.carray("x", n), B.iarray("t", p, q, lo=2, hi=n - 1))


# ---------------------------------------------------------------- boundaries are inside the ranges
def accepts(B, what, y, n):
    B.ensure(what, B.ieq(B.shape(y), (n,)))


@contract("C12", functions=[FM + ".fmconst", FM + ".fmlin"])
def fm_boundaries(B):
    n = B.int("n", 1)
    s, t = B.choice("s", (0.5, -0.5)), B.choice("t", (0.5, -0.5, 0.0))
    accepts(B, "frequency +-1/2 is accepted by fmconst", B.call(FM, "fmconst", n, s)[0], n)
    accepts(B, "frequencies +-1/2 are accepted by fmlin", B.call(FM, "fmlin", n, s, t)[0], n)


@contract("C12", functions=[FM + ".fmodany"])
def fmodany_boundaries(B):
    n = B.int("n", 1)
    t = B.choice("end", ("first", "last"))
    law = B.rarray("law", n, lo=-0.5, hi=0.5)
    accepts(B, "a law within +-1/2 is accepted", B.call(FM, "fmodany", law, 1 if t == "first" else n), n)


@contract("C12", functions=[FM + ".fmodany"])
def fmodany_column(B):
    n = B.int("n", 1)
    law = B.rarray("law", n, 1, lo=-0.5, hi=0.5)
    y = B.call(FM, "fmodany", law)
    B.ensure("n samples", B.ieq(B.len(y), n))


@contract("C12", functions=[ANA + ".anaask", ANA + ".anabpsk", ANA + ".anaqpsk"])
def keying_boundaries(B):
    n, c = B.int("n", 1), B.int("c", 1)
    name, f = B.choice("generator", ("anaask", "anabpsk", "anaqpsk")), B.choice("f", (0, 0.5))
    accepts(B, "carriers 0 and 1/2 are accepted", B.call(ANA, name, n, c, f)[0], n)


@contract("C12", functions=[M + ".doppler"])
def doppler_boundaries(B):
    n, fs, f0, d, v, t0 = dop(B)
    t = B.choice("end", ("first", "last"))
    top = B.choice("f", ("zero", "nyquist"))
    y = B.call(M, "doppler", n, fs, 0.0 if top == "zero" else fs / 2, d, 0.0 * v, 1 if t == "first" else n)
    accepts(B, "boundary arguments are accepted", y[0], n)


@contract("C12", functions=[M + ".mexhat"])
def mexhat_boundary(B):
    B.ensure("frequency 1/2 is accepted", B.ieq(B.shape(B.call(M, "mexhat", 0.5)), (7,)))
