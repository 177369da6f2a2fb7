"""Noise generators (C17)."""
from npv.registry import contract

NOI = "tftb.generators.noise"


def make(name):
    @contract("C17", name=name + "_size", functions=[NOI + "." + name, "tftb.utils.nextpow2"])
    def size(B):
        n = B.int("n", 1)
        y = B.call(NOI, name, n)
        B.ensure("n samples in one dimension", B.ieq(B.shape(y), (n,)))
        B.ensure("complex samples", B.is_complex(y))

    @contract("C17", name=name + "_analytic", functions=[NOI + "." + name, "tftb.utils.nextpow2"])
    def analytic(B):
        e = B.int("e", 2, samp=(2, 8))
        n = B.ipow(2, e)
        y = B.call(NOI, name, n)
        B.ensure("n samples", B.ieq(B.shape(y), (n,)))
        B.ensure("imaginary part is the Hilbert transform of the real part",
                 B.forall([n], lambda k: B.eq(B.im(B.at(y, k)), B.hilb(n, lambda j: B.re(B.at(y, j)), k))))
        mean = B.sum(n, lambda k: B.re(B.at(y, k))) / n
        B.ensure("the real part has variance 1/2",
                 B.eq(B.sum(n, lambda k: B.re(B.at(y, k)) * B.re(B.at(y, k))) / n - mean * mean, 0.5))


for _n in ("noisecg", "noisecu"):
    make(_n)
