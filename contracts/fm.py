"""FM generators: sizes, modulus, laws (C09) and phases (C10); argument guards (C12)."""
from npv.registry import contract

FM = "tftb.generators.frequency_modulated"


def signal(B, y, n):
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("complex samples", B.is_complex(y))
    B.ensure("unit modulus", B.forall([n], lambda k: B.eq(B.abs2(B.at(y, k)), 1)))


def law(B, f, n, fn):
    B.ensure("law has n entries", B.ieq(B.shape(f), (n,)))
    B.ensure("law is the documented function of time", B.forall([n], lambda k: B.eq(B.at(f, k), fn(k))))


def phase(B, y, n, turns):
    """phase of sample k is `turns(k)` turns, up to a constant"""
    B.ensure("phase is the integral of the law",
             B.forall([n, n], lambda k, j: B.eq(B.at(y, k) * B.conj(B.at(y, j)), B.cis(turns(k) - turns(j)))))


# ---------------------------------------------------------------- fmconst
@contract("C09", functions=[FM + ".fmconst"])
def fmconst(B):
    n, f, t0 = B.int("n", 1), B.real("f", -0.5, 0.5), B.real("t0")
    y, law_ = B.call(FM, "fmconst", n, f, t0)
    signal(B, y, n)
    law(B, law_, n, lambda k: f)


@contract("C10", name="fmconst_phase", functions=[FM + ".fmconst"])
def fmconst_phase(B):
    n, f, t0 = B.int("n", 1), B.real("f", -0.5, 0.5), B.real("t0")
    y, law_ = B.call(FM, "fmconst", n, f, t0)
    phase(B, y, n, lambda k: f * k)
    B.ensure("phase zero at the centre", B.forall([n], lambda k: B.eq(B.at(y, k), B.cis(f * (k - t0)))))


@contract("C10", name="fmconst_default_centre", functions=[FM + ".fmconst"])
def fmconst_default(B):
    n, f = B.int("n", 1), B.real("f", -0.5, 0.5)
    y, law_ = B.call(FM, "fmconst", n, f)
    B.ensure("phase zero at n/2", B.forall([n], lambda k: B.eq(B.at(y, k), B.cis(f * (k - B.round(n / 2))))))


# ---------------------------------------------------------------- fmlin
def span(n):
    return 1 if isinstance(n, int) and n == 1 else n - 1


def lin_args(B):
    n = B.int("n", 2) if B.choice("size", ("several", "one")) == "several" else 1
    a, b = B.real("a", -0.5, 0.5), B.real("b", -0.5, 0.5)
    t0 = B.int("t0", 1)
    B.require(t0 <= n)
    return n, a, b, t0


@contract("C09", functions=[FM + ".fmlin"])
def fmlin(B):
    n, a, b, t0 = lin_args(B)
    y, f = B.call(FM, "fmlin", n, a, b, t0)
    signal(B, y, n)
    law(B, f, n, lambda k: a + (b - a) * k / span(n))


@contract("C10", functions=[FM + ".fmlin"])
def fmlin_phase(B):
    n, a, b, t0 = lin_args(B)
    y, f = B.call(FM, "fmlin", n, a, b, t0)
    phase(B, y, n, lambda k: a * k + (b - a) * k * k / (2 * span(n)))
    B.ensure("phase zero at the centre", B.eq(B.at(y, t0 - 1), 1))


@contract("C10", functions=[FM + ".fmlin"])
def fmlin_default_centre(B):
    n = B.int("n", 2)
    a, b = B.real("a", -0.5, 0.5), B.real("b", -0.5, 0.5)
    y, f = B.call(FM, "fmlin", n, a, b)
    phase(B, y, n, lambda k: a * k + (b - a) * k * k / (2 * span(n)))
    B.ensure("phase zero at n/2", B.eq(B.at(y, B.round(n / 2) - 1), 1))


# ---------------------------------------------------------------- fmhyp
def hyp_args(B):
    n = B.int("n", 1)
    t1, t2 = B.int("t1", 1), B.int("t2", 1)
    B.require(B.not_(B.ieq(t1, t2)))
    f1, f2 = B.real("f1", 0, 0.5), B.real("f2", 0, 0.5)
    return n, t1, f1, t2, f2


def hyp(t1, f1, t2, f2):
    """law f0 + c/t through the two points"""
    c = (f2 - f1) * t1 * t2 / (t1 - t2)
    return f1 - c / t1, c


@contract("C09", functions=[FM + ".fmhyp"])
def fmhyp(B):
    n, t1, f1, t2, f2 = hyp_args(B)
    y, f = B.call(FM, "fmhyp", n, (t1, f1), (t2, f2))
    signal(B, y, n)
    f0, c = hyp(t1, f1, t2, f2)
    law(B, f, n, lambda k: f0 + c / (k + 1))
    B.ensure("law passes through the first point", B.implies(t1 <= n, lambda: B.eq(B.at(f, t1 - 1), f1)))
    B.ensure("law passes through the second point", B.implies(t2 <= n, lambda: B.eq(B.at(f, t2 - 1), f2)))


@contract("C10", functions=[FM + ".fmhyp"])
def fmhyp_phase(B):
    n, t1, f1, t2, f2 = hyp_args(B)
    y, f = B.call(FM, "fmhyp", n, (t1, f1), (t2, f2))
    f0, c = hyp(t1, f1, t2, f2)
    phase(B, y, n, lambda k: f0 * (k + 1) + c * B.log(k + 1))


# ---------------------------------------------------------------- fmpar
def par_args(B):
    return B.int("n", 1), B.real("a0", samp=(-1, 1)), B.real("a1", samp=(-0.1, 0.1)), B.real("a2", samp=(-0.01, 0.01))


@contract("C09", functions=[FM + ".fmpar"])
def fmpar(B):
    n, a0, a1, a2 = par_args(B)
    y, f = B.call(FM, "fmpar", n, (a0, a1, a2))
    signal(B, y, n)
    law(B, f, n, lambda k: a0 + a1 * k + a2 * k * k)


@contract("C10", functions=[FM + ".fmpar"])
def fmpar_phase(B):
    n, a0, a1, a2 = par_args(B)
    y, f = B.call(FM, "fmpar", n, (a0, a1, a2))
    phase(B, y, n, lambda k: a0 * k + a1 * k * k / 2 + a2 * k * k * k / 3)


# ---------------------------------------------------------------- fmpower
def pow_args(B):
    n = B.int("n", 1)
    k = B.real("k", 0, samp=(0, 3))
    B.require(B.not_(B.eq(k, 1)))
    return n, k


@contract("C09", functions=[FM + ".fmpower"])
def fmpower(B):
    n, e = pow_args(B)
    f0, c = B.real("f0", samp=(-1, 1)), B.real("c", samp=(-1, 1))
    y, f = B.call(FM, "fmpower", n, e, (f0, c))
    signal(B, y, n)
    law(B, f, n, lambda k: f0 + c * B.pow(k + 1, -e))


@contract("C10", functions=[FM + ".fmpower"])
def fmpower_phase(B):
    n, e = pow_args(B)
    f0, c = B.real("f0", samp=(-1, 1)), B.real("c", samp=(-1, 1))
    y, f = B.call(FM, "fmpower", n, e, (f0, c))
    phase(B, y, n, lambda k: f0 * (k + 1) + c * B.pow(k + 1, 1 - e) / (1 - e))


@contract("C09", functions=[FM + ".fmpower"])
def fmpower_two_points(B):
    n, e = pow_args(B)
    t1, t2 = B.int("t1", 1), B.int("t2", 1)
    B.require(B.not_(B.ieq(t1, t2)))
    B.require(e > 0)
    f1, f2 = B.real("f1", 0, 0.5), B.real("f2", 0, 0.5)
    B.require(B.not_(B.eq(B.pow(t1, -e), B.pow(t2, -e))))
    y, f = B.call(FM, "fmpower", n, e, (t1, f1, t2, f2))
    signal(B, y, n)
    c = (f2 - f1) / (B.pow(t2, -e) - B.pow(t1, -e))
    f0 = f1 - c * B.pow(t1, -e)
    law(B, f, n, lambda k: f0 + c * B.pow(k + 1, -e))
    B.ensure("law passes through the first point", B.implies(t1 <= n, lambda: B.eq(B.at(f, t1 - 1), f1, 10)))
    B.ensure("law passes through the second point", B.implies(t2 <= n, lambda: B.eq(B.at(f, t2 - 1), f2, 10)))


# ---------------------------------------------------------------- fmsin
def sin_args(B):
    n = B.int("n", 1)
    lo, hi = B.real("lo", -0.5, 0.5), B.real("hi", -0.5, 0.5)
    B.require(hi - lo > 0.001)
    f0 = B.real("f0", -0.5, 0.5)
    B.require(B.and_(lo <= f0, f0 <= hi))
    per = B.real("period", 0, lopen=True, samp=(1, 1000))
    t0 = B.real("t0")
    pm = B.choice("pm", [1, -1])
    return n, lo, hi, f0, per, t0, pm


def sin_phi(B, lo, hi, f0, pm):
    d = (hi - lo) / 2
    return d, (hi + lo) / 2, -pm * B.arccos((f0 - (hi + lo) / 2) / d)


@contract("C09", functions=[FM + ".fmsin"])
def fmsin(B):
    n, lo, hi, f0, per, t0, pm = sin_args(B)
    y, f = B.call(FM, "fmsin", n, lo, hi, per, t0, f0, pm)
    signal(B, y, n)
    d, mid, phi = sin_phi(B, lo, hi, f0, pm)
    law(B, f, n, lambda k: mid + d * B.cos(2 * B.pi * (k - t0) / per + phi))
    B.ensure("law stays between the bounds", B.forall([n], lambda k: B.and_(B.leq(lo, B.at(f, k)), B.leq(B.at(f, k), hi))))


@contract("C09", functions=[FM + ".fmsin"])
def fmsin_reference(B):
    n, lo, hi, f0, per, _, pm = sin_args(B)
    t0 = B.int("t0i", 0)
    B.require(t0 < n)
    y, f = B.call(FM, "fmsin", n, lo, hi, per, t0, f0, pm)
    B.ensure("law is fnorm0 at the reference instant", B.eq(B.at(f, t0), f0))


@contract("C09", functions=[FM + ".fmsin"])
def fmsin_defaults(B):
    n = B.int("n", 1)
    lo, hi = B.real("lo", -0.5, 0.5), B.real("hi", -0.5, 0.5)
    B.require(hi - lo > 0.001)
    y, f = B.call(FM, "fmsin", n, lo, hi)
    signal(B, y, n)
    d, mid, phi = sin_phi(B, lo, hi, (lo + hi) / 2, 1)
    law(B, f, n, lambda k: mid + d * B.cos(2 * B.pi * (k - n / 2) / n + phi))


@contract("C10", functions=[FM + ".fmsin"])
def fmsin_phase(B):
    n, lo, hi, f0, per, t0, pm = sin_args(B)
    y, f = B.call(FM, "fmsin", n, lo, hi, per, t0, f0, pm)
    d, mid, phi = sin_phi(B, lo, hi, f0, pm)
    phase(B, y, n, lambda k: mid * (k - t0) + d * per * B.sin(2 * B.pi * (k - t0) / per + phi) / (2 * B.pi))
    B.ensure("phase zero at the reference instant", B.implies(B.and_(B.eq(t0, 0)), lambda: B.eq(B.at(y, 0), 1)))


# ---------------------------------------------------------------- fmodany
def any_args(B):
    n = B.int("n", 1)
    f = B.rarray("f", n, lo=-0.5, hi=0.5)
    t0 = B.int("t0", 1)
    B.require(t0 <= n)
    return n, f, t0


@contract("C09", functions=[FM + ".fmodany"])
def fmodany(B):
    n, f, t0 = any_args(B)
    y = B.call(FM, "fmodany", f, t0)
    signal(B, y, n)
    B.unchanged("f")


@contract("C10", functions=[FM + ".fmodany"])
def fmodany_phase(B):
    n, f, t0 = any_args(B)
    y = B.call(FM, "fmodany", f, t0)
    B.ensure("phase advances by the law", B.forall([(1, n)], lambda k: B.eq(
        B.at(y, k) * B.conj(B.at(y, k - 1)), B.cis(B.at(f, k)))))
    B.ensure("phase is the cumulative sum of the law", B.forall([n], lambda k: B.eq(
        B.at(y, k), B.cis(B.sum(k + 1, lambda i: B.at(f, i)) - B.sum(t0, lambda i: B.at(f, i))))))
    B.ensure("phase zero at the centre", B.eq(B.at(y, t0 - 1), 1))
    B.unchanged("f")
