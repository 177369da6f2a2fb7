"""C07: shapes, axes and defaults of every representation; C08: frames and repeatability."""
from npv.registry import contract

LIN, COH = "tftb.processing.linear", "tftb.processing.cohen"
# class, module, how the time instants relate to the signal: "any" (int instants inside the signal), "cols" (one column
# per leading sample, at most N), "all" (exactly N)
CLASSES = [("ShortTimeFourierTransform", LIN, "cols"), ("Spectrogram", COH, "any"), ("PageRepresentation", COH, "any"),
           ("PseudoPageRepresentation", COH, "cols"), ("MargenauHillDistribution", COH, "any"),
           ("PseudoMargenauHillDistribution", COH, "cols"), ("WignerVilleDistribution", COH, "all"),
           ("PseudoWignerVilleDistribution", COH, "cols")]
WV = ("WignerVilleDistribution", "PseudoWignerVilleDistribution")
NORMALISED = ("PseudoPageRepresentation", "PseudoMargenauHillDistribution")


def axis(B, name, F, f):
    B.ensure("frequency axis has F entries", B.ieq(B.shape(f), (F,)))
    if name in WV:
        B.ensure("frequency axis is k/(2F)", B.forall([F], lambda k: B.eq(B.at(f, k) * (2 * F), k)))
    else:
        B.ensure("frequency axis holds the wrapped DFT frequencies",
                 B.forall([F], lambda k: B.eq(B.at(f, k) * F, B.ite(2 * k < F, k, k - F))))


def default_window(B, name, F, w):
    h = F // 4
    h = h + 1 - B.mod(h, 2)
    B.ensure("default window has odd length about F/4", B.ieq(B.shape(w), (h,)))
    B.ensure("the window length is odd", B.ieq(B.mod(h, 2), 1))
    mid = (h - 1) // 2
    if name in NORMALISED:
        B.ensure("default window is a Hamming window of centre one",
                 B.forall([h], lambda i: B.eq(B.at(w, i) * B.hamming(h, mid), B.hamming(h, i))))
    else:
        B.ensure("default window is a Hamming window", B.forall([h], lambda i: B.eq(B.at(w, i), B.hamming(h, i))))


def make(name, mod, kind):
    fn = ["%s.%s.run" % (mod, name), "tftb.processing.base.BaseTFRepresentation.__init__"]

    @contract("C07", name="defaults_" + name, functions=fn + ["tftb.processing.base.BaseTFRepresentation._make_window"],
              weight=0.5)
    def defaults(B):
        N = B.int("N", 1)
        x = B.carray("x", N)
        o = B.new(mod, name, x)
        r = B.method(o, "run")
        B.ensure("three results", len(r) == 3)
        tfr, t, f = r
        B.ensure("shape (N, N)", B.ieq(B.shape(tfr), (N, N)))
        B.ensure("N time instants", B.ieq(B.shape(t), (N,)))
        B.ensure("time instants are 0..N-1", B.forall([N], lambda c: B.eq(B.at(t, c), c)))
        axis(B, name, N, f)
        default_window(B, name, N, B.attr(o, "fwindow"))

    @contract("C07", name="axes_" + name, functions=fn, weight=0.5)
    def axes(B):
        N = B.int("N", 1)
        F = B.int("F", 1)
        if kind == "all":
            T = N
        else:
            T = B.int("T", 1)
            if kind == "cols":
                B.require(T <= N)
        if name == "MargenauHillDistribution":
            B.require(N <= F)
        x = B.carray("x", N)
        t = B.iarray("t", T, lo=0, hi=N - 1)
        L = B.int("L", 0)
        w = B.rarray("w", 2 * L + 1, pos=True)
        o = B.new(mod, name, x, timestamps=t, n_fbins=F, fwindow=w)
        tfr, t2, f = B.method(o, "run")
        B.ensure("shape (F, T)", B.ieq(B.shape(tfr), (F, T)))
        B.ensure("T time instants", B.ieq(B.shape(t2), (T,)))
        B.ensure("time instants are returned unchanged", B.forall([T], lambda c: B.eq(B.at(t2, c), B.at(t, c))))
        axis(B, name, F, f)
        B.unchanged("x", "t", "w")

    @contract("C07", name="default_window_" + name, functions=fn + ["tftb.processing.base.BaseTFRepresentation._make_window"],
              weight=0.3)
    def window(B):
        N = B.int("N", 1)
        F = B.int("F", 1)
        if name == "MargenauHillDistribution":
            B.require(N <= F)
        x = B.carray("x", N)
        o = B.new(mod, name, x, n_fbins=F)
        tfr, t, f = B.method(o, "run")
        B.ensure("shape (F, N)", B.ieq(B.shape(tfr), (F, N)))
        axis(B, name, F, f)
        default_window(B, name, F, B.attr(o, "fwindow"))

    @contract("C08", name="history_" + name, functions=fn, weight=0.5)
    def history(B):
        N = B.int("N", 1)
        M = B.int("M", 1)
        x = B.carray("x", N)
        y = B.carray("y", M)
        r1 = B.method(B.new(mod, name, x), "run")
        r1 = tuple(B.copy(v) for v in r1)
        B.method(B.new(mod, name, y), "run")
        r2 = B.method(B.new(mod, name, x), "run")
        B.same("the same analysis gives the same result after another one", r1, r2)
        B.unchanged("x", "y")

    @contract("C07", name="flatten_" + name, functions=fn, weight=0.3)
    def flatten(B):
        R = B.int("R", 1, samp=(1, 40))
        C = B.int("C", 1, samp=(1, 40))
        x = B.carray("x", R, C)
        o = B.new(mod, name, x)
        s = B.attr(o, "signal")
        B.ensure("flattened length", B.ieq(B.shape(s), (R * C,)))
        B.ensure("flattened in row order", B.forall([R, C], lambda i, j: B.eq(B.at(s, i * C + j), B.at(x, i, j))))

    @contract("C08", name="repeat_" + name, functions=fn, weight=0.5)
    def repeat(B):
        N = B.int("N", 1)
        F = B.int("F", 1)
        if name == "MargenauHillDistribution":
            B.require(N <= F)
        x = B.carray("x", N)
        L = B.int("L", 0)
        w = B.rarray("w", 2 * L + 1, pos=True)
        o = B.new(mod, name, x, n_fbins=F, fwindow=w)
        r1 = B.method(o, "run")
        r1 = tuple(B.copy(v) for v in r1)
        r2 = B.method(o, "run")
        B.same("a second run gives the same result", r1, r2)
        B.unchanged("x", "w")


for _c in CLASSES:
    make(*_c)
