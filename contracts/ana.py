"""Shift keying (C14), analytic pulse/step/singularity (C15)."""
from npv.registry import contract

ANA = "tftb.generators.analytic_signals"


def keying(B, name, **kw):
    n = B.int("n", 1)
    m = B.int("m", 1)
    r = B.call(ANA, name, n, m, **kw)
    B.ensure("signal and law", len(r) == 2)
    y, law = r
    B.ensure("n signal samples", B.ieq(B.shape(y), (n,)))
    B.ensure("n law samples", B.ieq(B.shape(law), (n,)))
    B.ensure("signal is complex", B.is_complex(y))
    B.ensure("law is real", B.not_(B.is_complex(law)))
    B.ensure("law is constant on blocks of n_comp samples",
             B.forall([n], lambda k: B.eq(B.at(law, k), B.at(law, k - B.mod(k, m)))))
    return n, m, y, law


@contract("C14", functions=[ANA + ".anaask"])
def ask(B):
    f0 = B.real("f0", 0, 0.5)
    n, m, y, law = keying(B, "anaask", f0=f0)
    B.ensure("amplitudes in [0, 1)", B.forall([n], lambda k: B.and_(B.leq(0, B.at(law, k)), B.at(law, k) < 1)))
    B.ensure("signal is the law times a unit tone", B.forall([n], lambda k: B.eq(B.at(y, k), B.at(law, k) * B.cis(f0 * (k - 1)))))


@contract("C14", functions=[ANA + ".anabpsk"])
def bpsk(B):
    f0 = B.real("f0", 0, 0.5)
    n, m, y, law = keying(B, "anabpsk", f0=f0)
    B.ensure("law is -1 or 1", B.forall([n], lambda k: B.or_(B.eq(B.at(law, k), 1), B.eq(B.at(law, k), -1))))
    B.ensure("signal is the law times a unit tone", B.forall([n], lambda k: B.eq(B.at(y, k), B.at(law, k) * B.cis(f0 * (k - 1)))))


@contract("C14", functions=[ANA + ".anaqpsk"])
def qpsk(B):
    f0 = B.real("f0", 0, 0.5)
    n, m, y, law = keying(B, "anaqpsk", f0=f0)
    B.ensure("law is 0, 1, 2 or 3 quarter turns",
             B.forall([n], lambda k: B.or_(*[B.eq(2 * B.at(law, k), j * B.pi) for j in range(4)])))
    B.ensure("signal phase is the carrier phase plus the law",
             B.forall([n], lambda k: B.eq(B.at(y, k), B.cis(f0 * (k - 1) + B.at(law, k) / (2 * B.pi)))))


@contract("C14", functions=[ANA + ".anafsk"])
def fsk(B):
    q = B.int("q", 1)
    n, m, y, law = keying(B, "anafsk", Nbf=q)

    def sym(k):
        """symbol number of sample k"""
        return q * (4 * B.at(law, k) - 1) + (q - 1) / 2
    B.ensure("frequency is one of the Nbf values",
             B.forall([n], lambda k: B.and_(B.eq(sym(k), B.round(sym(k))), B.leq(0, sym(k)), B.leq(sym(k), q - 1))))
    B.ensure("signal phase is the running sum of the law",
             B.forall([n], lambda k: B.eq(B.at(y, k), B.cis(B.sum(k + 1, lambda i: B.at(law, i))))))


DIV = {"anaask": 2, "anabpsk": 5, "anafsk": 5, "anaqpsk": 5}


def defaults(name):
    @contract("C14", name="defaults_" + name, functions=[ANA + "." + name], weight=0.5)
    def c(B):
        n = B.int("n", 3)       # below that the default block length rounds to zero
        y, law = B.call(ANA, name, n)
        m = B.round(n / DIV[name])
        B.ensure("n signal samples", B.ieq(B.shape(y), (n,)))
        B.ensure("n law samples", B.ieq(B.shape(law), (n,)))
        B.ensure("law is constant on the default blocks",
                 B.forall([n], lambda k: B.eq(B.at(law, k), B.at(law, k - B.mod(k, m)))))
        if name in ("anaask", "anabpsk"):
            B.ensure("default carrier is a quarter", B.forall([n], lambda k: B.eq(B.at(y, k), B.at(law, k) * B.cis((k - 1) / 4))))
        if name == "anaqpsk":
            B.ensure("default carrier is a quarter", B.forall([n], lambda k: B.eq(
                B.at(y, k), B.cis((k - 1) / 4 + B.at(law, k) / (2 * B.pi)))))

    if name != "anafsk":
        @contract("C12", name="rejects_" + name, functions=[ANA + "." + name], weight=0.5)
        def r(B):
            n, m, f = B.int("n", 1), B.int("m", 1), B.real("f", nice=(0.51, -0.01))
            B.require(B.or_(f < 0, f > 0.5))
            B.ensure("a carrier outside [0, 1/2] is rejected",
                     B.raises(lambda: B.call(ANA, name, n, m, f), ("TypeError", "ValueError")))


for _n in DIV:
    defaults(_n)


@contract("C14", functions=[ANA + "." + _n for _n in DIV], symbolic=False, expect="bounded",
          note="alphabet: 60 draws; a correct generator fails with probability below 1e-15")
def alphabet(B):
    """every symbol occurs and the law may change at every block boundary (statistical)"""
    name = B.choice("generator", tuple(DIV))
    n = B.int("n", 3, samp=(3, 60))
    m = B.round(n / DIV[name])
    if B.choice("blocks", ("default", "given")) == "given":
        m = B.int("m", 1, samp=(1, 20))
    runs = []
    for _ in range(60):
        B.seed += 1                 # calls start from a generator state derived from the seed
        runs.append(B.call(ANA, name, n, *([m] if "m" in B.ilog else []))[1])
    edges = list(range(m, n, m))
    B.ensure("a new symbol is drawn for every block", B.and_(*[
        B.or_(*[B.not_(B.eq(B.at(r, e), B.at(r, e - 1))) for r in runs]) for e in edges]))
    found = set(round(float(B.at(r, k)), 6) for r in runs for k in range(0, n, m))
    want = {"anaask": 50, "anabpsk": 2, "anaqpsk": 4, "anafsk": 4}[name]
    B.ensure("the whole alphabet is used", len(found) >= want)


def analytic(B, y, n, re):
    B.ensure("n samples", B.ieq(B.shape(y), (n,)))
    B.ensure("real part", B.forall([n], lambda k: B.eq(B.re(B.at(y, k)), re(k))))
    B.ensure("imaginary part is the Hilbert transform of the real part",
             B.forall([n], lambda k: B.eq(B.im(B.at(y, k)), B.hilb(n, re, k))))


@contract("C15", functions=[ANA + ".anapulse"])
def anapulse(B):
    n, ti = B.int("n", 1), B.int("ti", 0)
    B.require(ti < n)
    analytic(B, B.call(ANA, "anapulse", n, ti), n, lambda k: B.ite(B.ieq(k, ti), 1, 0))


@contract("C15", functions=[ANA + ".anapulse"])
def anapulse_default(B):
    n = B.int("n", 1)
    analytic(B, B.call(ANA, "anapulse", n), n, lambda k: B.ite(B.ieq(k, B.round(n / 2)), 1, 0))


@contract("C15", functions=[ANA + ".anastep"])
def anastep(B):
    n, ti = B.int("n", 1), B.int("ti", 0)
    B.require(ti < n)
    analytic(B, B.call(ANA, "anastep", n, ti), n, lambda k: B.ite(k > ti, 1, 0))


@contract("C15", functions=[ANA + ".anastep"])
def anastep_default(B):
    n = B.int("n", 1)
    analytic(B, B.call(ANA, "anastep", n), n, lambda k: B.ite(k > B.round(n / 2), 1, 0))


@contract("C15", functions=[ANA + ".anasing"])
def anasing_smooth(B):
    n, t0, h = B.int("n", 1), B.real("t0", 0, 50), B.real("h", 0, 3, lopen=True)
    y = B.call(ANA, "anasing", n, t0, h)
    top = B.amax(n, lambda j: B.pow(B.abs(j - t0), h))
    analytic(B, y, n, lambda k: top - B.pow(B.abs(k - t0), h))
