"""Amplitude modulations (C11)."""
from npv.registry import contract

AM = "tftb.generators.amplitude_modulated"


def absv(B, x):
    return B.ite(x >= 0, x, -x)


FORMULA = {
    "amgauss": lambda B, k, t0, s: B.exp(-B.pi * ((k + 1 - t0) / s) * ((k + 1 - t0) / s)),
    "amexpos": lambda B, k, t0, s: B.exp(-B.sqrt(2 * B.pi) * absv(B, k - t0) / s),
    "amexpos1": lambda B, k, t0, s: B.ite(k >= t0, lambda: B.exp(-B.sqrt(B.pi) * (k - t0) / s), 0),
    "amrect": lambda B, k, t0, s: B.ite(absv(B, k - t0) <= s * B.sqrt(3 / B.pi) / 2, 1, 0),
    "amtriang": lambda B, k, t0, s: B.max(0, 1 - absv(B, k - t0) / (B.sqrt(10 / B.pi) * s / 2)),
}


def make(key):
    name = key.rstrip("1")
    kw = {"kind": "unilateral"} if key.endswith("1") else {}
    off = 1 if name == "amgauss" else 0     # amgauss counts its samples from one

    def env(B, n, y, t0, s):
        B.ensure("n samples", B.ieq(B.shape(y), (n,)))
        B.ensure("samples equal the formula", B.forall([n], lambda k: B.eq(B.at(y, k), FORMULA[key](B, k, t0, s))))
        B.ensure("values between 0 and 1",
                 B.forall([n], lambda k: B.and_(B.leq(0, B.num(B.at(y, k))), B.leq(B.num(B.at(y, k)), 1))))

    @contract("C11", name=key + "_formula", functions=[AM + "." + name])
    def formula(B):
        n, t0, s = B.int("n", 1), B.real("t0"), B.real("s", 0, lopen=True)
        y = B.call(AM, name, n, t0, s, **kw)
        env(B, n, y, t0, s)

    @contract("C11", name=key + "_defaults", functions=[AM + "." + name])
    def defaults(B):
        n = B.int("n", 1)
        y = B.call(AM, name, n, **kw)
        B.ensure("n samples", B.ieq(B.shape(y), (n,)))
        z = B.call(AM, name, n, B.round(n / 2), 2 * B.sqrt(n), **kw)
        B.same("default centre is n/2 rounded, default spread 2 sqrt(n)", y, z)

    @contract("C11", name=key + "_centre", functions=[AM + "." + name])
    def centre(B):
        n, t0, s = B.int("n", 1), B.int("t0", off), B.real("s", 0, lopen=True)
        B.require(t0 - off < n)
        y = B.call(AM, name, n, t0, s, **kw)
        B.ensure("one at the centre", B.eq(B.at(y, t0 - off), 1))

    @contract("C12", name=key + "_rejects", functions=[AM + "." + name])
    def rejects(B):
        m = B.int("m", 0)
        t0, s = B.real("t0"), B.real("s", 0, lopen=True)
        B.ensure("a point count of zero or less is rejected",
                 B.raises(lambda: B.call(AM, name, -m, t0, s, **kw), ("TypeError", "ValueError")))


for _k in FORMULA:
    make(_k)
