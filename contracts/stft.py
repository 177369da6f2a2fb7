from npv.registry import contract


def circ(B, F, m):
    """lag of row m in circular order"""
    return B.ite(2 * m <= F - 1, m, m - F)


@contract("C01", functions=["tftb.processing.linear.ShortTimeFourierTransform.run",
                            "tftb.processing.base.BaseTFRepresentation.__init__"])
def stft_definition(B):
    N = B.int("N", 1)
    F = B.int("F", 1)
    L = B.int("L", 0)
    x = B.carray("x", N)
    w = B.carray("w", 2 * L + 1)
    T = B.int("T", 1)
    B.require(T <= N)
    ts = B.iarray("t", T, lo=0, hi=N - 1)
    o = B.new("tftb.processing.linear", "ShortTimeFourierTransform", x, timestamps=ts, n_fbins=F, fwindow=w)
    tfr, t, f = B.method(o, "run")
    B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))

    def kern(c):
        def g(m):
            tau = circ(B, F, m)
            ok = B.and_(tau <= B.min(L, (F - 1) // 2), -tau <= B.min(L, (F - 1) // 2), c + tau >= 0, c + tau < N)
            return B.ite(ok, lambda: B.at(x, c + tau) * B.conj(B.at(w, L + tau)), 0)
        return g
    B.ensure("entry is the windowed Fourier sum",
             B.forall([F, T], lambda k, c: B.eq(B.at(tfr, k, c), B.dft(F, kern(c), k))))
    B.unchanged("x", "w", "t")
