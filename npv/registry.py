"""Contracts: functions B -> None, run on two back ends.

Symbolic (npv.sym): B is the deductive engine, inputs are symbols of unbounded
size and every ensure() is a proof obligation.
Concrete (npv.conc): B runs the real code on sampled inputs and checks the same
contract numerically."""
# callee taken by contract (Contract.uses) -> the contracts that prove it on the callee's body
JUSTIFIED_BY = {"tftb.processing.utils.integrate_2d": ("integrate", "integrate_default_axes")}
CONTRACTS = {}       # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, functions, symbolic, concrete, note, weight, budget, expect, uses=()):
        self.uses = tuple(uses)
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.symbolic, self.concrete = symbolic, concrete
        self.note = note
        self.weight = weight
        self.budget = budget
        self.expect = expect
        self.frame = False


def add_frames():
    """C08 covers every function under a contract of any other property: the same calls, of which only the frame (no
    input array is modified) and the repeatability (the same calls give the same results) are decided."""
    for p in sorted(CONTRACTS):
        if p == "C08":
            continue
        for c in CONTRACTS[p]:
            if c.name in ("hough_default", "gabor_dual_window", "gabor_biorthogonal") or c.name.endswith("_normalised"):   # calls another contract makes
                continue
            f = Contract("C08", "frame_%s_%s" % (p, c.name), c.fn, c.functions, c.symbolic and c.expect == "proved", c.concrete,
                         "", min(c.weight, 0.25), c.budget, c.expect if c.symbolic else "bounded", c.uses)
            f.frame = True
            CONTRACTS.setdefault("C08", []).append(f)


def contract(prop, name=None, functions=(), symbolic=True, concrete=True, note="", weight=1.0, budget=60,
             expect="proved", uses=()):
    """expect: "proved" (all obligations are discharged on the reference tree)
    or "bounded" (some part is outside the verifier's reach; concrete only)."""
    def d(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            CONTRACTS.setdefault(p, []).append(
                Contract(p, name or f.__name__, f, tuple(functions), symbolic, concrete, note, weight, budget, expect, uses))
        return f
    return d


def load_all():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and not fn.startswith("_"):
            importlib.import_module("contracts." + fn[:-3])
    if not any(c.frame for c in CONTRACTS.get("C08", ())):
        add_frames()
    return CONTRACTS
