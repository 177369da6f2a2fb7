"""Symbolic interpreter for the Python/numpy subset used by the code under
verification.  It reads the real source on every run, executes it on symbolic
inputs of unbounded size and produces proof obligations.

Loops with a symbolic trip count are replaced by an inferred closed form
(loop invariant): scalars v0 + sum of increments, arrays "own store" or
"accumulate", search loops with a break by their first hit; anything that does
not fit is replaced by an unconstrained value."""
import ast
import os
from fractions import Fraction
from . import terms as T
from . import smt
from . import prove as PR
from .terms import P, Poly, Formula, TRUE, FALSE, And, Or, Not


class Unsupported(Exception):
    pass


class RaiseEx(Exception):
    def __init__(self, name, where=""):
        Exception.__init__(self, name)
        self.name, self.where = name, where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Rebind(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ values
KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


class Sc:
    __slots__ = ("v", "k", "py")

    def __init__(self, v, k, py=False):
        self.v, self.k, self.py = v, k, py

    def __repr__(self):
        return "Sc(%r,%s)" % (self.v, self.k)


class Arr:
    __slots__ = ("shape", "k", "body")

    def __init__(self, shape, k, body):
        self.shape, self.k, self.body = tuple(P(s) for s in shape), k, body

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "Arr(%r,%s,%r)" % (self.shape, self.k, self.body)


class Ref:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Lst(Ref):
    __slots__ = ()


class Obj(Ref):
    __slots__ = ()


class ObjVal:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Poison:
    def __init__(self, why):
        self.why = why


class FuncVal:
    def __init__(self, node, mod, name, closure=None, cls=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.name, self.closure, self.cls = node, mod, name, closure, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.static = False
        self.kind = "method"


class BoundMethod:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class ClassVal:
    def __init__(self, name, bases, attrs, mod):
        self.name, self.bases, self.attrs, self.mod = name, bases, attrs, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n]
        return None


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModVal:
    def __init__(self, name, env):
        self.name, self.env = name, env


class Ext:
    """An external (library) name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Opaque:
    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data


class SliceVal:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Masked:
    """a[mask] (lazy): values of base where mask holds, in order."""

    def __init__(self, shape, k, body, mask):
        self.shape, self.k, self.body, self.mask = shape, k, body, mask


class DictVal:
    def __init__(self, d):
        self.d = d


class Ellip:
    pass


ELLIPSIS = Ellip()
_IDX = []


def IDX(i):
    while len(_IDX) <= i:
        _IDX.append(T.var("#%d" % len(_IDX)))
    return _IDX[i]


def idx_atoms(n):
    return [T.the_atom(IDX(i)) for i in range(n)]


def at(arr, idxs):
    m = {}
    for i, x in enumerate(idxs):
        m[T.the_atom(IDX(i))] = P(x)
    return T.subst(arr.body, m)


def kmax(*ks):
    return max(ks, key=lambda k: KORD[k])


def as_num(v, k):
    """Poly value of a scalar body of kind k (booleans become 0/1)."""
    if isinstance(v, Formula):
        return T.ite(v, 1, 0)
    return v


def as_bool(v, k):
    if isinstance(v, Formula):
        return v
    return Not(T.eq0(v))


def sc(v, py=True):
    """Native python number -> Sc."""
    if isinstance(v, Sc):
        return v
    if isinstance(v, bool):
        return Sc(T.B(v), "b", py)
    if isinstance(v, int):
        return Sc(T.const(v), "i", py)
    if isinstance(v, float):
        return Sc(P(v), "f", py)
    if isinstance(v, Fraction):
        return Sc(P(v), "f", py)
    if isinstance(v, complex):
        return Sc(P(v), "c", py)
    if isinstance(v, Poly):
        return Sc(v, "i" if v.is_int else ("f" if v.is_real else "c"), py)
    if isinstance(v, Formula):
        return Sc(v, "b", py)
    raise Unsupported("scalar %r" % (v,))


class Trace:
    def __init__(self, choices, pending):
        self.choices, self.pending = list(choices), pending
        self.pos = 0
        self.conds = []


BUILTIN_EXC = {"TypeError", "ValueError", "AssertionError", "IndexError", "KeyError",
               "ZeroDivisionError", "NotImplementedError", "RuntimeError", "Exception",
               "AttributeError", "OverflowError", "ArithmeticError", "LookupError",
               "StopIteration", "FloatingPointError", "ImportError"}
EXC_PARENT = {"IndexError": "LookupError", "KeyError": "LookupError",
              "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
              "FloatingPointError": "ArithmeticError", "NotImplementedError": "RuntimeError"}


def exc_matches(name, handler):
    while name is not None:
        if name == handler:
            return True
        if name == "Exception":
            return False
        name = EXC_PARENT.get(name, "Exception")
    return False


class Interp:
    def __init__(self, repo="/repo", oblige=None):
        self.repo = repo
        self.mods = {}
        self.asts = {}
        self.oblige_cb = oblige
        self.summaries = {}
        self.use_summaries = True
        self.reset()
        from . import npmodel
        self.np = npmodel

    # ---------------------------------------------------------- state
    def reset(self):
        self.heap = {}
        self.ncell = 0
        self.group = {}
        self.members = {}
        self.viewof = {}
        self.pc = []
        self.loop_idx = []
        self.positions = []
        self.traces = []
        self.inputs = {}          # group -> name
        self.nfresh = 0
        self.funcs = getattr(self, "funcs", set())
        self.quiet = 0
        self.abstracted = []
        self.where = ""
        self.frames = []
        self.loops = getattr(self, "loops", 0)
        self.written = {}
        self.draws = []
        self.warned = []
        self.mods = {}
        self.modcells = set()

    def newcell(self, val, base=None):
        self.ncell += 1
        c = self.ncell
        self.heap[c] = val
        g = c if base is None else self.group[base]
        self.group[c] = g
        self.members.setdefault(g, []).append(c)
        return c

    def arr(self, shape, k, body, base=None):
        return Ref(self.newcell(Arr(shape, k, body), base))

    def mk(self, a, base=None):
        return Ref(self.newcell(a, base))

    def lst(self, items):
        return Lst(self.newcell(tuple(items)))

    def get(self, r):
        if isinstance(r, Arr):
            return r
        v = self.heap[r.cell]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def fresh_name(self, p):
        self.nfresh += 1
        return "%s!!%d" % (p, self.nfresh)

    def fresh_int(self, p="i"):
        return T.var(self.fresh_name(p), "int")

    def fresh_scalar(self, p, k):
        """A fresh unknown scalar (depends on the enclosing loop indices)."""
        nm = self.fresh_name(p)
        if k == "b":
            return T.belem(nm, tuple(self.loop_idx))
        return T.elem(nm, tuple(self.loop_idx), k != "c", "int" if k == "i" else "real")

    def fresh_arr(self, p, shape, k, name=None):
        nm = name or self.fresh_name(p)
        idx = tuple(self.loop_idx) + tuple(IDX(i) for i in range(len(shape)))
        if k == "b":
            return Arr(shape, k, T.belem(nm, idx))
        return Arr(shape, k, T.elem(nm, idx, k != "c", "int" if k == "i" else "real"))

    def write(self, ref, a):
        """Store a new array value in a cell, tracking aliases and inputs."""
        c = ref.cell
        self.not_module_state(c)
        g = self.group[c]
        if g in self.inputs and not self.quiet:
            self.written.setdefault(self.inputs[g], self.where)
        self.heap[c] = a
        v = self.viewof.get(c)
        base = None
        if v is not None:
            base, sel, ishape = v
            if not isinstance(self.heap[base], Poison):
                b = self.heap[base]
                nb = self.store(b, sel, a)
                self.heap[base] = nb
            else:
                base = None
        for d in self.members[g]:
            if d != c and d != base:
                if not isinstance(self.heap.get(d), Poison):
                    self.heap[d] = Poison("array read after being modified through an alias")

    # ---------------------------------------------------------- path condition
    def ent(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        return PR.round_bound(self.pc, f) or smt.entails(self.pc, f) is True

    def assume(self, f):
        if f is not TRUE:
            for g in (f.args if f.op == "and" else (f,)):
                if not any(h is g for h in self.pc):
                    self.pc.append(g)

    def branch(self, f):
        """Decide a symbolic condition, forking the current exploration."""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if self.ent(f):
            return True
        if self.ent(Not(f)):
            return False
        if not self.traces:
            raise Unsupported("branch outside exploration")
        tr = self.traces[-1]
        if tr.pos < len(tr.choices):
            d = tr.choices[tr.pos]
        else:
            tr.pending.append(tr.choices[:tr.pos] + [False])
            tr.choices.append(True)
            d = True
        tr.pos += 1
        lit = f if d else Not(f)
        tr.conds.append(lit)
        self.assume(lit)
        return d

    def oblige(self, f, what, exc=None):
        """Proof obligation: f holds here.  Afterwards f may be assumed."""
        if f is TRUE or self.quiet:
            if f is not TRUE:
                self.assume(f)
            return
        if self.oblige_cb is not None:
            self.oblige_cb(f, list(self.pc), what, self.where, exc)
        self.assume(f)

    def explore(self, thunk, env):
        """All paths of thunk from the current state:
        list of (conds, outcome, heap, env, pc)."""
        base_heap = dict(self.heap)
        base_env = dict(env)
        base_pc = list(self.pc)
        base_nf = self.nfresh
        res = []
        pending = [[]]
        guard = 0
        while pending:
            guard += 1
            if guard > 64:
                raise Unsupported("too many paths in a loop body")
            ch = pending.pop()
            self.heap = dict(base_heap)
            env.clear()
            env.update(base_env)
            self.pc = list(base_pc)
            self.traces.append(Trace(ch, pending))
            try:
                try:
                    thunk()
                    out = ("normal", None)
                except ReturnEx as e:
                    out = ("return", e.v)
                except BreakEx:
                    out = ("break", None)
                except ContinueEx:
                    out = ("normal", None)
                except RaiseEx as e:
                    out = ("raise", e)
                except Infeasible:
                    continue
                tr = self.traces[-1]
                res.append((And(*tr.conds), out, self.heap, dict(env), self.pc[len(base_pc):]))
            finally:
                self.traces.pop()
        self.heap = dict(base_heap)
        env.clear()
        env.update(base_env)
        self.pc = list(base_pc)
        return res

    # ---------------------------------------------------------- merging
    def merge_vals(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        if isinstance(a, (bool, int, float, complex)):
            a = sc(a)
        if isinstance(b, (bool, int, float, complex)):
            b = sc(b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.v is b.v:
                return Sc(a.v, kmax(a.k, b.k), a.py and b.py)
            if a.k == "b" and b.k == "b":
                return Sc(T.fite(c, a.v, b.v), "b", a.py and b.py)
            k = kmax(a.k, b.k)
            return Sc(T.ite(c, as_num(a.v, a.k), as_num(b.v, b.k)), k, a.py and b.py)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.merge_arr(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and type(a) is type(b) and a.cell == b.cell:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_vals(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and a == b:
            return a
        if a is None and b is None:
            return a
        return Poison("value differs between branches")

    def merge_arr(self, c, a, b):
        if a is b:
            return a
        if a.ndim != b.ndim:
            return Poison("array rank differs between branches")
        for x, y in zip(a.shape, b.shape):
            if x is not y and not self.ent(T.eq(x, y)):
                return Poison("array shape differs between branches")
        if a.k == "b" and b.k == "b":
            return Arr(a.shape, "b", T.fite(c, a.body, b.body))
        return Arr(a.shape, kmax(a.k, b.k), T.ite(c, as_num(a.body, a.k), as_num(b.body, b.k)))

    def merge_heapval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.merge_arr(c, a, b)
        if isinstance(a, ObjVal) and isinstance(b, ObjVal) and a.cls is b.cls:
            attrs = {}
            for k in set(a.attrs) | set(b.attrs):
                if k in a.attrs and k in b.attrs:
                    attrs[k] = self.merge_vals(c, a.attrs[k], b.attrs[k])
                else:
                    attrs[k] = Poison("attribute set on one branch only")
            return ObjVal(a.cls, attrs)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_vals(c, x, y) for x, y in zip(a, b))
        return Poison("heap value differs between branches")

    def merge_states(self, paths, env):
        """paths: list of (cond, heap, env); sets the current state."""
        if not paths:
            raise Infeasible()
        c0, h, e = paths[-1]
        h, e = dict(h), dict(e)
        for c, h2, e2 in reversed(paths[:-1]):
            nh = {}
            for k in set(h) | set(h2):
                if k in h and k in h2:
                    nh[k] = self.merge_heapval(c, h2[k], h[k])
                else:
                    nh[k] = h.get(k, h2.get(k))
            ne = {}
            for k in set(e) | set(e2):
                if k in e and k in e2:
                    x, y = e2[k], e[k]
                    if isinstance(x, Ref) and isinstance(y, Ref) and type(x) is Ref and type(y) is Ref \
                            and x.cell != y.cell:
                        xa, ya = h2.get(x.cell), h.get(y.cell)
                        if isinstance(xa, Arr) and isinstance(ya, Arr):
                            m = self.merge_arr(c, xa, ya)
                            if isinstance(m, Arr):
                                cell = self.newcell(m)
                                nh[cell] = m
                                ne[k] = Ref(cell)
                                continue
                        ne[k] = Poison("array differs between branches")
                    else:
                        ne[k] = self.merge_vals(c, x, y)
                else:
                    ne[k] = Poison("variable set on one branch only")
            h, e = nh, ne
        self.heap = h
        env.clear()
        env.update(e)

    # ---------------------------------------------------------- modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            fn = os.path.join(path, "__init__.py")
        else:
            fn = path + ".py"
        if not os.path.exists(fn):
            raise Unsupported("module %s" % name)
        if fn not in self.asts:
            with open(fn, encoding="utf-8") as f:
                self.asts[fn] = ast.parse(f.read(), fn)
        env = {"__name__": name}
        m = ModVal(name, env)
        m.file = os.path.relpath(fn, self.repo)
        m.is_pkg = os.path.isdir(path)
        self.mods[name] = m
        if m.is_pkg:
            # packages: resolve names lazily from their import statements
            m.lazy = {}
            for st in self.asts[fn].body:
                if isinstance(st, ast.ImportFrom):
                    src = self.abs_mod(m, st)
                    for al in st.names:
                        m.lazy[al.asname or al.name] = (src, al.name)
            return m
        fr = Frame(env, m, None)
        lo = self.ncell
        for st in self.asts[fn].body:
            self.exec_stmt(st, fr)
        self.modcells.update(range(lo + 1, self.ncell + 1))
        return m

    def not_module_state(self, cell):
        if cell in self.modcells:
            raise Unsupported("module-level state is modified")

    def abs_mod(self, m, st):
        if st.level:
            parts = m.name.split(".")
            if not getattr(m, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            return ".".join(parts + ([st.module] if st.module else []))
        return st.module

    def mod_attr(self, m, n):
        if n in m.env:
            return m.env[n]
        lz = getattr(m, "lazy", None)
        if lz and n in lz:
            src, nm = lz[n]
            v = self.import_name(src, nm)
            m.env[n] = v
            return v
        sub = m.name + "." + n
        p = os.path.join(self.repo, *sub.split("."))
        if os.path.exists(p + ".py") or os.path.isdir(p):
            return self.module(sub)
        raise RaiseEx("AttributeError", "module attribute %s.%s" % (m.name, n))

    def import_name(self, src, nm):
        if src.split(".")[0] == "tftb":
            return self.mod_attr(self.module(src), nm)
        return self.ext(src + "." + nm)

    def ext(self, name):
        return self.np.resolve_ext(self, name)

    # ---------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def loc(self, node, fr):
        return "%s:%d" % (getattr(fr.mod, "file", fr.mod.name), getattr(node, "lineno", 0))

    def exec_stmt(self, st, fr):
        if hasattr(st, "lineno"):
            self.where = self.loc(st, fr)
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(st).__name__, self.where))
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Import(self, st, fr):
        for al in st.names:
            if al.name.split(".")[0] == "tftb":
                v = self.module(al.name if al.asname else al.name.split(".")[0])
            else:
                v = self.ext(al.name if al.asname else al.name.split(".")[0])
            fr.env[al.asname or al.name.split(".")[0]] = v

    def st_ImportFrom(self, st, fr):
        src = self.abs_mod(fr.mod, st)
        if src == "__future__":
            return
        for al in st.names:
            fr.env[al.asname or al.name] = self.import_name(src, al.name)

    def st_FunctionDef(self, st, fr):
        d = [self.ev(x, fr) for x in st.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(st.args.kwonlyargs, st.args.kw_defaults) if x is not None}
        qn = (fr.cls.name + "." if getattr(fr, "cls", None) else "") + st.name
        f = FuncVal(st, fr.mod, qn, fr if fr.fn is not None else None, getattr(fr, "cls", None), d, kd)
        for dec in st.decorator_list:
            if isinstance(dec, ast.Name) and dec.id in ("staticmethod", "classmethod", "property"):
                f.kind = dec.id
            else:
                raise Unsupported("decorator")
        fr.env[st.name] = f

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        c = ClassVal(st.name, bases, {}, fr.mod)
        f2 = Frame(c.attrs, fr.mod, None, parent=fr)
        f2.cls = c
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.exec_stmt(s, f2)
        fr.env[st.name] = c

    def st_Return(self, st, fr):
        raise ReturnEx(None if st.value is None else self.ev(st.value, fr))

    def st_Break(self, st, fr):
        raise BreakEx()

    def st_Continue(self, st, fr):
        raise ContinueEx()

    def st_Global(self, st, fr):
        raise Unsupported("global")

    def st_Nonlocal(self, st, fr):
        raise Unsupported("nonlocal")

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise RaiseEx("AssertionError", self.where)

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise RaiseEx("Exception", self.where)
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            raise RaiseEx(e.id, self.where)
        raise Unsupported("raise")

    def st_Try(self, st, fr):
        try:
            self.exec_block(st.body, fr)
        except RaiseEx as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = ["Exception"]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts]
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                if any(exc_matches(e.name, n) for n in names):
                    if h.name:
                        fr.env[h.name] = Opaque("exc", e)
                    self.exec_block(h.body, fr)
                    break
            else:
                self.exec_block(st.finalbody, fr)
                raise
        else:
            self.exec_block(st.orelse, fr)
        self.exec_block(st.finalbody, fr)

    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if not (isinstance(v, Opaque) and v.tag == "ctx"):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def st_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load(), lineno=t.lineno, col_offset=0), fr)
            fr_set = lambda v: fr.env.__setitem__(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            fr_set = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.ev_index(t.slice, fr)
            cur = self.getitem(o, ix)
            fr_set = lambda v: self.setitem(o, ix, v)
        else:
            raise Unsupported("augmented assignment")
        rhs = self.ev(st.value, fr)
        if type(cur) is Ref:
            a = self.get(cur)
            r = self.binop(op, cur, rhs)
            ra = self.get(r) if isinstance(r, Ref) else None
            if ra is None:
                raise Unsupported("in-place result")
            if KORD[ra.k] > KORD[a.k] and not (a.k == "f" and ra.k == "c" and False):
                raise RaiseEx("TypeError", "in-place %s casts %s to %s at %s" % (op, ra.k, a.k, self.where))
            if ra.ndim != a.ndim:
                raise RaiseEx("ValueError", "in-place broadcast " + self.where)
            for x, y in zip(a.shape, ra.shape):
                self.oblige(T.eq(x, y), "in-place operation keeps the shape", "ValueError")
            na = Arr(a.shape, a.k, self.np.cast_body(self, ra, a.k))
            self.write(cur, na)
            if isinstance(t, ast.Subscript):
                fr_set(cur)
            elif isinstance(t, ast.Attribute):
                fr_set(cur)
            return
        if isinstance(cur, Lst) and op == "Add":
            items = self.iter_concrete(rhs)
            self.not_module_state(cur.cell)
            self.heap[cur.cell] = self.heap[cur.cell] + tuple(items)
            return
        fr_set(self.binop(op, cur, rhs))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, t=None):
        if t is not None and any(isinstance(e, ast.Starred) for e in t.elts):
            raise Unsupported("starred assignment")
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Lst):
            items = list(self.get(v))
        elif isinstance(v, Ref):
            a = self.get(v)
            c = a.shape[0].const()
            if c is None:
                self.oblige(T.eq(a.shape[0], n), "unpacking length", "ValueError")
                c = n
            items = [self.getitem(v, (sc(i),)) for i in range(int(c))]
        else:
            raise Unsupported("unpack %r" % (v,))
        if len(items) != n:
            raise RaiseEx("ValueError", "unpack " + self.where)
        return items

    # ---------------------------------------------------------- loops
    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        n, f = self.iterable(it)
        c = n.const()
        if c is not None and c <= 12:
            try:
                for i in range(max(0, int(c))):
                    self.assign(st.target, f(T.const(i)), fr)
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(st.orelse, fr)
            return

        def body(i):
            self.assign(st.target, f(i), fr)
            self.exec_block(st.body, fr)
        self.sym_loop(n, body, fr, st)

    def st_While(self, st, fr):
        # concrete while loops with decided conditions are unrolled (bounded)
        for _ in range(40):
            t = self.ev(st.test, fr)
            f = self.truth_formula(t)
            if f is None:
                raise Unsupported("while condition")
            if self.ent(Not(f)):
                self.exec_block(st.orelse, fr)
                return
            if self.ent(f):
                if _ > 16:
                    break
                # only unroll when the loop makes concrete progress
                if not isinstance(f, Formula) or f is TRUE:
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return
                    continue
            break
        self.sym_while(st, fr)

    def sym_while(self, st, fr):
        """while i < bound: ...; i += step   (one linear induction variable)."""
        pre_env, pre_heap, pre_pc = dict(fr.env), dict(self.heap), list(self.pc)
        cand = None
        # probe: which scalar does the body advance by a constant?
        self.quiet += 1
        try:
            res = self.explore(lambda: self.exec_block(st.body, fr), fr.env)
        finally:
            self.quiet -= 1
        for v in pre_env:
            a = pre_env[v]
            if not isinstance(a, Sc) or a.k != "i":
                continue
            steps = set()
            for c, out, h, e, pcx in res:
                if out[0] == "normal" and isinstance(e.get(v), Sc) and not isinstance(e[v].v, Formula):
                    steps.add(e[v].v - a.v)
            if len(steps) == 1:
                s = steps.pop().const()
                if s in (1, -1):
                    cand = (v, s)
        if cand is None:
            raise Unsupported("while loop without a unit-step counter")
        v, s = cand
        i0 = pre_env[v].v
        h = self.fresh_int("w")
        fr.env[v] = Sc(h, "i", True)
        self.quiet += 1
        try:
            f = self.truth_formula(self.ev(st.test, fr))
        finally:
            self.quiet -= 1
        fr.env.clear()
        fr.env.update(pre_env)
        self.heap, self.pc = pre_heap, pre_pc
        if f is None:
            raise Unsupported("while condition")
        ha = T.the_atom(h)
        lits = f.args if f.op == "and" else (f,)
        n = None
        for l in lits:
            if l.op in ("le",):
                li = smt.linear_in(l.args[0], ha)
                if li and li[0] == s and n is None and ha not in li[1].fv:
                    # s*h + rest <= 0  => iterations while s*(i0+s*j)+rest<=0: j <= -rest - s*i0
                    cnt = -li[1] - s * i0 + 1
                    n = T.pmax(0, cnt) if not self.ent(T.ge(cnt, 0)) else cnt
        early = n is None or len(lits) > 1
        if n is None:
            # a search: some value ahead of the counter is known to stop it
            for c in [T.const(0), T.const(1)] + [a.v for a in pre_env.values() if isinstance(a, Sc) and a.k == "i"
                                                 and not isinstance(a.v, Formula)]:
                if self.ent(T.ge(s * (c - i0), 0)) and self.ent(Not(T.subst(f, {ha: c}))):
                    n = s * (c - i0)
                    break
        if n is None:
            raise Unsupported("while condition shape")
        if not early:
            self.sym_loop(n, lambda i: self.exec_block(st.body, fr), fr, st)
            return

        def step(i):
            g = self.truth_formula(self.ev(st.test, fr))
            if not self.branch(g):
                raise BreakEx()
            self.exec_block(st.body, fr)
        self.sym_loop(n, step, fr, st)

    def iterable(self, it):
        """(length Poly, fn(index Poly) -> value)"""
        if isinstance(it, RangeVal):
            return it.n, lambda i: Sc(it.start + it.step * i, "i", True)
        if isinstance(it, tuple):
            return T.const(len(it)), lambda i: it[int(i.const())]
        if isinstance(it, Lst):
            v = self.get(it)
            return T.const(len(v)), lambda i: v[int(i.const())]
        if isinstance(it, EnumVal):
            n, f = self.iterable(it.it)
            return n, lambda i: (Sc(it.start + i, "i", True), f(i))
        if isinstance(it, ZipVal):
            fs = [self.iterable(x) for x in it.its]
            n = fs[0][0]
            for m, _ in fs[1:]:
                if not (m is n) and not self.ent(T.eq(m, n)):
                    n = T.pmin(n, m)
            return n, lambda i: tuple(f(i) for _, f in fs)
        if isinstance(it, RevVal):
            n, f = self.iterable(it.it)
            return n, lambda i: f(n - 1 - i)
        if isinstance(it, Ref):
            a = self.get(it)
            if a.ndim == 1:
                return a.shape[0], lambda i: Sc(at(a, [i]), a.k)
            if a.ndim == 2:
                return a.shape[0], lambda i: self.getitem(it, (Sc(i, "i"),))
        if isinstance(it, DictVal):
            ks = list(it.d)
            return T.const(len(ks)), lambda i: ks[int(i.const())]
        raise Unsupported("iteration over %r" % (it,))

    def iter_concrete(self, it):
        n, f = self.iterable(it)
        c = n.const()
        if c is None:
            raise Unsupported("symbolic length where a concrete one is needed")
        return [f(T.const(i)) for i in range(int(c))]

    def rebound(self, old, new, pre_heap, h, mod_cells):
        if type(old) is not Ref or type(new) is not Ref or new.cell in pre_heap or old.cell in mod_cells:
            return False
        a, b = pre_heap.get(old.cell), h.get(new.cell)
        return isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and h.get(old.cell) is a and \
            all(p is q or self.ent(T.eq(p, q)) for p, q in zip(a.shape, b.shape))

    def havoc_val(self, v, name):
        if isinstance(v, bool):
            v = sc(v)
        if isinstance(v, (int, float, complex)):
            v = sc(v)
        if isinstance(v, Sc):
            if v.k == "b":
                return Sc(T.bvar(self.fresh_name("H" + name)), "b", v.py)
            nm = self.fresh_name("H" + name)
            if v.k == "c":
                return Sc(T.elem(nm, (), False), "c", v.py)
            return Sc(T.var(nm, "int" if v.k == "i" else "real"), v.k, v.py)
        return Poison("loop-carried value of unsupported type (%s)" % name)

    def sym_loop(self, n, body, fr, st):
        """Symbolic loop.  A variable the body rebinds to a new array of the same shape is carried in
        a copy made before the loop (the array it was bound to is not touched by the body)."""
        for _ in range(6):
            try:
                return self.sym_loop1(n, body, fr, st)
            except Rebind as e:
                ref, body = self.carry(fr, e.name, body)
        raise Unsupported("too many rebound arrays in a loop")

    def carry(self, fr, name, body):
        a = self.heap[fr.env[name].cell]
        mine = self.newcell(Arr(a.shape, a.k, a.body))
        fr.env[name] = Ref(mine)

        def wrapped(i):
            was = self.heap[mine]

            def store():
                if self.heap[mine] is not was:
                    raise Unsupported("array both rebound and modified in place in a loop (%s)" % name)
                v = fr.env.get(name)
                if isinstance(v, Ref) and type(v) is Ref and v.cell == mine:
                    return
                x = self.get(v) if isinstance(v, Ref) else None
                if not isinstance(x, Arr) or x.ndim != a.ndim or not all(
                        p is q or self.ent(T.eq(p, q)) for p, q in zip(x.shape, a.shape)):
                    raise Unsupported("loop-carried array changes shape (%s)" % name)
                self.heap[mine] = Arr(a.shape, x.k, x.body)
                fr.env[name] = Ref(mine)
            try:
                r = body(i)
            except ContinueEx:
                store()
                raise
            except BreakEx:
                store()
                raise
            store()
            return r
        return fr.env[name], wrapped

    def sym_loop1(self, n, body, fr, st):
        """Symbolic loop: n iterations of body(i)."""
        self.loops += 1
        if self.ent(T.le(n, 0)):
            self.exec_block(getattr(st, "orelse", []), fr)
            return
        pre_env, pre_heap, pre_pc = dict(fr.env), dict(self.heap), list(self.pc)
        env = fr.env
        i = self.fresh_int("i")
        ia = T.the_atom(i)
        mod_env, mod_cells = {}, {}      # name -> havoc value ; cell -> havoc Arr
        kinds = {}

        def restore():
            env.clear()
            env.update(pre_env)
            self.heap = dict(pre_heap)
            self.pc = list(pre_pc)

        def setup(envvals, cells):
            restore()
            self.assume(And(T.ge(i, 0), T.lt(i, n)))
            for k, v in envvals.items():
                if k in pre_env:
                    env[k] = v
            for c, a in cells.items():
                self.heap[c] = a

        def havoc_cell(c, k=None):
            o = pre_heap[c]
            if isinstance(o, Arr):
                kk = k or o.k
                nm = self.fresh_name("H")
                idx = tuple(IDX(j) for j in range(o.ndim))
                if kk == "b":
                    return Arr(o.shape, kk, T.belem(nm, idx)), nm
                return Arr(o.shape, kk, T.elem(nm, idx, kk != "c", "int" if kk == "i" else "real")), nm
            return Poison("loop-carried object"), None

        names = {}
        self.loop_idx.append(i)
        nf0 = self.nfresh
        try:
            # ---- phase 1: modified set (fixpoint)
            self.quiet += 1
            try:
                for rnd in range(8):
                    setup(mod_env, mod_cells)
                    # object attribute havoc is handled through cells below
                    res = self.explore(lambda: body(i), env)
                    grew = False
                    base_heap = dict(self.heap)
                    for c, out, h, e, pcx in res:
                        for k in e:
                            if k in pre_env:
                                cur = mod_env.get(k, pre_env[k])
                                if not same_val(e[k], cur):
                                    if k not in mod_env:
                                        if self.rebound(pre_env[k], e[k], pre_heap, h, mod_cells):
                                            restore()
                                            raise Rebind(k)
                                        mod_env[k] = self.havoc_val(pre_env[k], k)
                                        grew = True
                                    elif isinstance(mod_env[k], Sc) and isinstance(e[k], Sc) and \
                                            KORD[e[k].k] > KORD[mod_env[k].k]:
                                        mod_env[k] = self.havoc_val(Sc(as_num(mod_env[k].v, 0), e[k].k, False), k)
                                        grew = True
                        for cell in pre_heap:
                            hv = h.get(cell)
                            if hv is None:
                                continue
                            cur = base_heap[cell]
                            if hv is cur:
                                continue
                            if isinstance(hv, ObjVal):
                                g2 = self.obj_changes(cell, pre_heap, hv, mod_cells, havoc_cell)
                                grew = grew or g2
                                continue
                            if isinstance(hv, Arr) and isinstance(cur, Arr) and hv.body is cur.body \
                                    and hv.k == cur.k:
                                continue
                            if cell not in mod_cells:
                                a, nm = havoc_cell(cell)
                                mod_cells[cell] = a
                                names[cell] = nm
                                grew = True
                            elif isinstance(hv, Arr) and isinstance(cur, Arr) and hv.k != cur.k:
                                a, nm = havoc_cell(cell, kmax(hv.k, cur.k))
                                mod_cells[cell] = a
                                names[cell] = nm
                                grew = True
                    if not grew:
                        break
                else:
                    raise Unsupported("loop modification analysis did not settle")
            finally:
                self.quiet -= 1

            # ---- phase 2: closed forms for scalars
            hv_atoms = set()
            for k, v in mod_env.items():
                if isinstance(v, Sc):
                    hv_atoms |= set(T.sub_atoms(v.v)) if isinstance(v.v, Poly) else set()
            hnames = set(names.values())

            def mentions_h(x, skip=None):
                def pred(a):
                    kind = getattr(a, "kind", None)
                    if kind is None:     # belem formula
                        return a.args[0] in hnames
                    if a in hv_atoms and a is not skip:
                        return True
                    return kind == "elem" and a.args[0] in hnames
                return T.contains_kind(x, pred) or any(a in hv_atoms and a is not skip for a in x.fv)

            norm = [(c, h, e) for c, out, h, e, pcx in res if out[0] == "normal"]
            closed = {}          # name -> fn(iteration count j) -> Sc  value at START of iteration j
            if norm:
                self.merge_states(norm, env)
                after = dict(env)
                changed = True
                pend = [k for k, v in mod_env.items()]
                # substitution of already closed scalars
                subst_closed = {}
                while changed and pend:
                    changed = False
                    for k in list(pend):
                        hv, av = mod_env[k], after.get(k)
                        if isinstance(hv, Poison) or not isinstance(av, Sc):
                            continue
                        val = av.v
                        if isinstance(val, Formula) or isinstance(hv.v, Formula):
                            if isinstance(val, Formula) and not mentions_h(val):
                                pre = pre_env[k]
                                closed[k] = self.cl_indep_b(ia, val, sc(pre))
                                pend.remove(k)
                                changed = True
                            continue
                        val = T.subst(val, {a: f(i) for a, f in subst_closed.items()}) if subst_closed else val
                        ha = T.the_atom(hv.v)
                        d = val - hv.v
                        if ha not in d.fv and not mentions_h2(d, hv_atoms - set(subst_closed), hnames):
                            pre = sc(pre_env[k])
                            closed[k] = self.cl_sum(ia, d, pre, kmax(hv.k, av.k))
                            subst_closed[ha] = (lambda fn: (lambda j: fn(j).v))(closed[k])
                            pend.remove(k)
                            changed = True
                        elif not mentions_h2(val, hv_atoms - set(subst_closed), hnames):
                            pre = sc(pre_env[k])
                            closed[k] = self.cl_indep(ia, val, pre, kmax(hv.k, av.k))
                            subst_closed[ha] = (lambda fn: (lambda j: fn(j).v))(closed[k])
                            pend.remove(k)
                            changed = True
            # ---- phase 3: final pass, obligations on
            self.nfresh = max(self.nfresh, nf0)
            ev2 = {}
            for k, v in mod_env.items():
                ev2[k] = closed[k](i) if k in closed else v
            setup(ev2, mod_cells)
            was = dict(self.heap)
            res = self.explore(lambda: body(i), env)
        finally:
            self.loop_idx.pop()
        for c, out, h, e, pcx in res:
            if out[0] == "raise":
                self.oblige_path_false(c, out[1], i, n, pre_pc)
        norm = [(c, h, e) for c, out, h, e, pcx in res if out[0] == "normal"]
        brk = [(c, out, h, e) for c, out, h, e, pcx in res if out[0] in ("break", "return")]
        dep = self.dependent_arrays(norm, env, mod_cells, names, i, n, hv_atoms, hnames, pre_heap, pre_pc, restore) \
            if len(mod_cells) > 1 else {}
        if dep:
            # arrays whose update reads another array of the loop: explore again with that one in closed form
            setup(ev2, {**mod_cells, **dep})
            self.quiet += 1
            try:
                res3 = self.explore(lambda: body(i), env)
            finally:
                self.quiet -= 1
            norm3 = [(c, h, e) for c, out, h, e, pcx in res3 if out[0] == "normal"]

        def finish(count):
            """State after `count` complete (non-breaking) iterations."""
            restore()
            newheap = dict(pre_heap)
            newenv = dict(pre_env)
            if norm:
                self.pc = list(pre_pc)
                self.assume(And(T.ge(i, 0), T.lt(i, n)))
                self.merge_states(norm, env)
                aheap, aenv = self.heap, dict(env)
                restore()
                for k, v in aenv.items():
                    if k in mod_env:
                        if k in closed:
                            newenv[k] = closed[k](count)
                        else:
                            newenv[k] = self.opaque_like(v, "loop-carried value " + k)
                    elif k not in pre_env:
                        # assigned in the loop only: last iteration
                        if isinstance(v, Sc) and not isinstance(v.v, Formula) and \
                                not mentions_h2(v.v, hv_atoms, hnames) and self.ent(T.ge(count, 1)):
                            newenv[k] = Sc(T.subst(v.v, {ia: count - 1}), v.k, v.py)
                        elif isinstance(v, Ref) and type(v) is Ref and isinstance(aheap.get(v.cell), Arr) \
                                and self.ent(T.ge(count, 1)):
                            a = aheap[v.cell]
                            if not mentions_h2(a.body, hv_atoms, hnames) and not any(
                                    mentions_h2(s, hv_atoms, hnames) for s in a.shape):
                                cell = self.newcell(Arr([T.subst(s, {ia: count - 1}) for s in a.shape], a.k,
                                                        T.subst(a.body, {ia: count - 1})))
                                newheap[cell] = self.heap[cell]
                                newenv[k] = Ref(cell)
                            else:
                                newenv[k] = Poison("array defined in a loop")
                        elif isinstance(v, (FuncVal, ClassVal, Ext, ModVal, str)) or v is None:
                            newenv[k] = v
                        else:
                            newenv[k] = Poison("variable defined in a loop (%s)" % k)
                bheap = aheap
                if dep:
                    self.pc = list(pre_pc)
                    self.assume(And(T.ge(i, 0), T.lt(i, n)))
                    self.merge_states(norm3, env)
                    bheap = self.heap
                    restore()
                for cell, ha in mod_cells.items():
                    newheap[cell] = self.close_array(cell, pre_heap, ha, names.get(cell),
                                                     (aheap if cell in dep else bheap).get(cell),
                                                     i, count, n, hv_atoms, hnames, pre_pc)
                for cell, hv in pre_heap.items():
                    if isinstance(hv, ObjVal) and aheap.get(cell) is not hv and isinstance(aheap.get(cell), ObjVal):
                        newheap[cell] = self.close_obj(hv, aheap[cell], mod_cells, ia, count)
            self.heap = newheap
            env.clear()
            env.update(newenv)
            self.pc = list(pre_pc)

        self.loop_idx = list(self.loop_idx)
        if not brk:
            finish(n)
            self.exec_block(getattr(st, "orelse", []), fr)
            return
        # ---- break / return inside the loop: first-hit rule
        E = Or(*[c for c, _, _, _ in brk])
        if mentions_h2(E, hv_atoms, hnames):
            raise Unsupported("loop exit depends on loop-carried arrays")
        j = self.fresh_int("j")
        hit = self.fresh_scalar("brk", "b")
        if self.branch(hit):
            ts = self.fresh_int("t") if not self.loop_idx else self.fresh_scalar("t", "i")
            noearlier = T.forall(j, Or(T.lt(j, 0), T.ge(j, ts), Not(T.subst(E, {ia: j}))))
            finish(ts)
            self.assume(And(T.ge(ts, 0), T.lt(ts, n), T.subst(E, {ia: ts})))
            self.assume(noearlier)
            self.assume(hit)
            try:
                body(ts)
            except BreakEx:
                return
            except ContinueEx:
                pass
            raise Infeasible()
        else:
            finish(n)
            self.assume(T.forall(j, Or(T.lt(j, 0), T.ge(j, n), Not(T.subst(E, {ia: j})))))
            self.assume(Not(hit))
            if not smt.consistent(self.pc):
                raise Infeasible()
            self.exec_block(getattr(st, "orelse", []), fr)

    def dependent_arrays(self, norm, env, mod_cells, names, i, n, hv_atoms, hnames, pre_heap, pre_pc, restore):
        """Closed forms (state before iteration i) of the loop's arrays, when some other array needs them; else {}."""
        if not norm:
            return {}
        na = len(self.abstracted)
        self.quiet += 1
        try:
            self.pc = list(pre_pc)
            self.assume(And(T.ge(i, 0), T.lt(i, n)))
            self.merge_states(norm, env)
            aheap = self.heap
            restore()
            good, bad = {}, 0
            for cell, ha in mod_cells.items():
                if isinstance(ha, Poison):
                    return {}
                k = len(self.abstracted)
                r = self.close_array(cell, pre_heap, ha, names.get(cell), aheap.get(cell), i, i, n, hv_atoms, hnames, pre_pc)
                if len(self.abstracted) > k or not isinstance(r, Arr):
                    bad += 1
                else:
                    good[cell] = r
            return good if bad and good else {}
        finally:
            self.quiet -= 1
            del self.abstracted[na:]
            restore()

    def oblige_path_false(self, c, ex, i, n, pre_pc):
        save = self.pc
        self.pc = list(pre_pc)
        self.assume(And(T.ge(i, 0), T.lt(i, n)))
        self.oblige(Not(c), "no %s raised in the loop" % ex.name, ex.name)
        self.pc = save

    def obj_changes(self, cell, pre_heap, hv, mod_cells, havoc_cell):
        """An object's attribute was rebound inside a loop body."""
        o = pre_heap[cell]
        grew = False
        for k, v in hv.attrs.items():
            if k in o.attrs and not same_val(o.attrs[k], v):
                if isinstance(v, Ref) and type(v) is Ref:
                    raise Unsupported("object attribute %s rebound in a loop" % k)
        return grew

    def close_obj(self, o, a, mod_cells, ia, count):
        attrs = {}
        for k in set(o.attrs) | set(a.attrs):
            if k in o.attrs and k in a.attrs and same_val(o.attrs[k], a.attrs[k]):
                attrs[k] = o.attrs[k]
            else:
                attrs[k] = Poison("object attribute set in a loop")
        return ObjVal(o.cls, attrs)

    def opaque_like(self, v, why):
        if isinstance(v, Sc):
            self.abstracted.append(why)
            return Sc(self.fresh_scalar("X", v.k), v.k, v.py)
        return Poison(why)

    def cl_sum(self, ia, d, pre, k):
        def f(j):
            if ia not in d.fv:
                return Sc(as_num(pre.v, 0) + d * j, k, pre.py)
            v = T.fresh("b")
            return Sc(as_num(pre.v, 0) + T.close_bind("sum", P(j), v, T.subst(d, {ia: v})), k, pre.py)
        return f

    def cl_indep(self, ia, val, pre, k):
        def f(j):
            return Sc(T.ite(T.ge(j, 1), T.subst(val, {ia: P(j) - 1}), as_num(pre.v, 0)), k, pre.py)
        return f

    def cl_indep_b(self, ia, val, pre):
        def f(j):
            return Sc(T.fite(T.ge(j, 1), T.subst(val, {ia: P(j) - 1}), as_bool(pre.v, 0)), "b", pre.py)
        return f

    def close_array(self, cell, pre_heap, ha, hname, after, i, count, n, hv_atoms, hnames, pre_pc):
        """Closed form of an array modified in a loop after `count` iterations."""
        A0 = pre_heap[cell]
        if isinstance(ha, Poison) or not isinstance(after, Arr) or not isinstance(A0, Arr):
            return Poison("array modified in a loop")
        ia = T.the_atom(i)
        if ha.k == "b":
            self.abstracted.append("boolean array modified in a loop")
            return self.fresh_arr("X", A0.shape, "b")
        idx = [IDX(j) for j in range(A0.ndim)]
        a0 = as_num(A0.body, A0.k)
        bd = after.body
        k = ha.k
        inr = [And(T.ge(x, 0), T.lt(x, s)) for x, s in zip(idx, A0.shape)]
        H = ha.body
        others = hnames - {hname}
        # accumulation
        d = ite_minus(own_reads(bd, H, hname, idx), H)
        if not mentions_h2(d, hv_atoms, hnames):
            if not d.t:
                return A0
            v = T.fresh("b")
            dv = T.subst(d, {ia: v})
            tot = PR.sum_delta(P(count), v, dv)
            return Arr(A0.shape, k, a0 + (T.close_bind("sum", P(count), v, dv) if tot is None else tot))
        r = self.single_owner(A0, a0, bd, H, hname, idx, i, count, n, hv_atoms, hnames,
                              PR.Pc(()).add(*pre_pc).add(*inr).add(T.ge(n, 1)))
        if r is not None:
            return Arr(A0.shape, k, r)
        arms = flatten_arms(bd, H)
        if arms is None:
            self.abstracted.append("array modified in a loop (shape of update)")
            return self.fresh_arr("X", A0.shape, k)
        # own-store arms: solve each condition for the iteration number
        out = []
        pcx = PR.Pc(()).add(*pre_pc).add(*inr)
        pcx = pcx.add(T.ge(n, 1))
        for c, val in arms:
            if ia not in c.fv and not mentions_h2(val, hv_atoms, hnames) and ia not in val.fv:
                out.append(("const", c, val, None))
                continue
            g = solve_for(c, ia, n, pcx)
            if g is None:
                if not mentions_h2(val, hv_atoms, hnames) and ia not in val.fv and \
                        not mentions_h2(c, hv_atoms, hnames):
                    v = self.fresh_int("e")
                    ex = T.exists(v, And(T.ge(v, 0), T.lt(v, count), T.subst(c, {ia: v})))
                    out.append(("exists", ex, val, None))
                    continue
                self.abstracted.append("array modified in a loop (target not solvable)")
                return self.fresh_arr("X", A0.shape, k)
            out.append(("own", c, val, g))
        owns = [o for o in out if o[0] == "own"]
        if len(owns) != len(out) and len(out) > 1:
            if any(o[0] == "own" for o in out):
                self.abstracted.append("array modified in a loop (mixed updates)")
                return self.fresh_arr("X", A0.shape, k)
        # frame check: different arms at different iterations never hit the same cell
        i2 = T.fresh("i2")
        for x in range(len(owns)):
            for y in range(len(owns)):
                if x == y:
                    continue
                c1, c2 = owns[x][1], T.subst(owns[y][1], {ia: i2})
                f = Not(And(c1, c2))
                pcy = pcx.add(T.ge(i, 0), T.lt(i, n), T.ge(i2, 0), T.lt(i2, n), Not(T.eq(i, i2)))
                if not PR.ent(pcy, f):
                    self.abstracted.append("array modified in a loop (overlapping updates)")
                    return self.fresh_arr("X", A0.shape, k)
        res = a0
        for kind, c, val, g in reversed(out):
            if kind == "own":
                cg = T.subst(c, {ia: g})
                # reads of the array inside val: only cells owned by this iteration and
                # not yet written by it (flatten_arms resolves same-iteration writes)
                val2 = replace_h(val, hname, H, A0, idx, c, ia, pcx.add(T.ge(i, 0), T.lt(i, n)), owns)
                if val2 is None or mentions_h2(val2, hv_atoms, hnames) or mentions_h2(c, hv_atoms, hnames):
                    self.abstracted.append("array modified in a loop (recurrence)")
                    return self.fresh_arr("X", A0.shape, k)
                vg = T.subst(val2, {ia: g})
                res = T.ite(And(T.ge(g, 0), T.lt(g, count), cg), vg, res)
            elif kind == "const":
                res = T.ite(And(c, T.ge(count, 1)), val, res)
            else:
                res = T.ite(c, val, res)
        return Arr(A0.shape, k, res)

    def single_owner(self, A0, a0, bd, H, hname, idx, i, count, n, hv_atoms, hnames, pcx):
        """Every cell is written by at most one iteration g(cell): closed form, or None."""
        ia = T.the_atom(i)
        cands = {}

        def walk(f):
            if f.op in ("and", "or", "not"):
                for x in f.args:
                    walk(x)
            elif f.op == "eq" and ia in f.fv:
                g = solve_for(f, ia, n, pcx)
                if g is not None and ia not in g.fv:
                    cands[g.id] = g
        for z in PR.deep_ites(bd):
            walk(z.args[0])
        for z in PR.deep_ites(bd):
            c = z.args[0]
            if c.op == "and":
                g = solve_for(c, ia, n, pcx)
                if g is not None and ia not in g.fv:
                    cands[g.id] = g
        ixa = set(T.the_atom(x) for x in idx)
        if scattered(bd, ia, n, ixa, pcx):
            return None
        cl = [g for g in cands.values() if any(x in g.fv for x in ixa)]
        cl.sort(key=lambda g: (len(g.t), g.id))
        rng = pcx.add(T.ge(i, 0), T.lt(i, n))
        hs = []

        def pred(a):
            if getattr(a, "kind", None) == "elem" and a.args[0] == hname:
                hs.append(a)
            return False
        T.contains_kind(bd, pred)
        for g in cl[:6]:
            if mentions_h2(g, hv_atoms, hnames):
                continue
            try:
                if not PR.eq0(bd - H, rng.add(Not(T.eq(i, g))), 12):
                    continue
            except PR.Budget:
                raise
            m = {}
            ok = True
            for a in hs:
                rd = a.args[1]
                if any(T.contains_kind(r, lambda z: getattr(z, "kind", "") == "var" and
                                       str(z.args[0]).startswith("@")) for r in rd):
                    ok = False
                    break
                sub = {T.the_atom(x): r for x, r in zip(idx, rd)}
                if not all(x is r for x, r in zip(idx, rd)):
                    if not PR.ent(rng.add(T.eq(i, g)), T.ge(T.subst(g, sub), i)):
                        ok = False
                        break
                v = T.subst(a0, sub)
                m[a] = T.conj(v) if a.args[2] else v
            if not ok:
                continue
            val = T._subst(bd, m, frozenset(m), {}, False) if m else bd
            if mentions_h2(val, hv_atoms, hnames):
                continue
            return T.ite(And(T.ge(g, 0), T.lt(g, count)), T.subst(val, {ia: g}), a0)
        return None

    # ---------------------------------------------------------- expressions
    def truth_formula(self, v):
        if isinstance(v, bool):
            return T.B(v)
        if isinstance(v, (int, float, complex)):
            return T.B(bool(v))
        if isinstance(v, Sc):
            return as_bool(v.v, v.k)
        if v is None:
            return FALSE
        if isinstance(v, str):
            return T.B(bool(v))
        if isinstance(v, tuple):
            return T.B(len(v) > 0)
        if isinstance(v, Lst):
            return T.B(len(self.get(v)) > 0)
        if isinstance(v, DictVal):
            return T.B(len(v.d) > 0)
        if isinstance(v, (FuncVal, ClassVal, ModVal, Ext, Obj, BoundMethod)):
            return TRUE
        if isinstance(v, Ref):
            a = self.get(v)
            self.oblige(T.eq(prod(a.shape), 1), "truth value of an array needs one element", "ValueError")
            return as_bool(at(a, [0] * a.ndim), a.k)
        raise Unsupported("truth value of %r" % (v,))

    def truth(self, v):
        return self.branch(self.truth_formula(v))

    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(e).__name__, self.where))
        v = m(e, fr)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def ex_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (str, bytes)):
            return v
        if v is Ellipsis:
            return ELLIPSIS
        return sc(v)

    def ex_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.env and not (f.is_class and f is not fr):
                return f.env[e.id]
            f = f.parent
        if e.id in fr.mod.env:
            return fr.mod.env[e.id]
        if getattr(fr.mod, "lazy", None) and e.id in fr.mod.lazy:
            return self.mod_attr(fr.mod, e.id)
        if e.id in ("True", "False", "None"):
            return {"True": sc(True), "False": sc(False), "None": None}[e.id]
        return self.ext("builtins." + e.id)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.iter_concrete(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        return self.lst(self.ex_Tuple(e, fr))

    def ex_Set(self, e, fr):
        return self.ex_Tuple(e, fr)

    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k, fr)
            if isinstance(kk, Sc):
                kk = kk.v
            d[kk] = self.ev(v, fr)
        return DictVal(d)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ex_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        """Tuple of index components."""
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index1(x, fr) for x in s.elts)
        v = self.ev_index1(s, fr)
        if isinstance(v, tuple):
            return v
        return (v,)

    def ev_index1(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def ex_JoinedStr(self, e, fr):
        return "<fstring>"

    def ex_Lambda(self, e, fr):
        d = [self.ev(x, fr) for x in e.args.defaults]
        return FuncVal(e, fr.mod, "<lambda>", fr, None, d, {})

    def ex_IfExp(self, e, fr):
        t = self.truth_formula(self.ev(e.test, fr))
        if t is TRUE or self.ent(t):
            return self.ev(e.body, fr)
        if t is FALSE or self.ent(Not(t)):
            return self.ev(e.orelse, fr)
        if is_pure(e.body) and is_pure(e.orelse):
            a, b = self.ev(e.body, fr), self.ev(e.orelse, fr)
            m = self.merge_vals(t, a, b)
            if not isinstance(m, Poison):
                return m
        if self.branch(t):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = []
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            f = self.truth_formula(v)
            last = i == len(e.values) - 1
            if last:
                if not acc:
                    return v
                break
            stop = Not(f) if isand else f
            if self.ent(stop):
                return v if not acc else Sc((And if isand else Or)(*acc, f), "b", True)
            if self.ent(Not(stop)):
                continue
            if all(is_pure(y) for y in e.values[i + 1:]):
                acc.append(f)
                continue
            if self.branch(stop):
                return v
        return Sc((And if isand else Or)(*acc, self.truth_formula(v)), "b", True)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Sc(Not(self.truth_formula(v)), "b", True)
        if isinstance(e.op, ast.USub):
            return self.np.unary(self, v, lambda x: -x, lambda k: "i" if k == "b" else k)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.np.invert(self, v)
        raise Unsupported("unary operator")

    def ex_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, Lst) and isinstance(b, Lst) and op == "Add":
            return self.lst(self.get(a) + self.get(b))
        if isinstance(a, Lst) and isinstance(b, Sc) and op == "Mult" and b.py:
            c = b.v.const()
            if c is not None:
                return self.lst(self.get(a) * int(c))
        if isinstance(a, str):
            if op == "Mod" or isinstance(b, str):
                return "<str>"
        return self.np.binop(self, op, a, b)

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = []
        for i, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rx, fr)
            r = self.compare(op, left, right)
            left = right
            if len(e.ops) == 1:
                return r
            f = self.truth_formula(r)
            acc.append(f)
            if f is FALSE:
                break
            if i < len(e.ops) - 1 and not all(is_pure(y) for y in e.comparators[i + 1:]):
                if not self.branch(f):
                    return sc(False)
        return Sc(And(*acc), "b", True)

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            same = a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell)
            if isinstance(a, Sc) and isinstance(b, Sc):
                if a.k == "b" and b.k == "b":
                    same = self.branch(T.Iff(a.v, b.v))
                else:
                    raise Unsupported("identity of numbers")
            return sc(same if o == "Is" else not same)
        if o in ("In", "NotIn"):
            r = self.contains(a, b)
            return Sc(r if o == "In" else Not(r), "b", True)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if o == "Eq":
                return sc(isinstance(a, type(b)) and a == b)
            if o == "NotEq":
                return sc(not (isinstance(a, type(b)) and a == b))
            raise RaiseEx("TypeError", self.where)
        if isinstance(a, (Ext, ClassVal)) or isinstance(b, (Ext, ClassVal)):
            ea = a.name if isinstance(a, Ext) else a
            eb = b.name if isinstance(b, Ext) else b
            if o in ("Eq", "NotEq"):
                return sc((ea == eb) == (o == "Eq"))
        if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)):
            x = list(a) if isinstance(a, tuple) else list(self.get(a))
            y = list(b) if isinstance(b, tuple) else list(self.get(b))
            if o in ("Eq", "NotEq"):
                f = FALSE if len(x) != len(y) else And(*[self.truth_formula(self.compare(ast.Eq(), p, q)) for p, q in zip(x, y)])
                return Sc(f if o == "Eq" else Not(f), "b", True)
        return self.np.compare(self, o, a, b)

    def contains(self, a, b):
        if isinstance(b, (tuple, Lst)):
            items = b if isinstance(b, tuple) else self.get(b)
            fs = []
            for x in items:
                r = self.compare(ast.Eq(), a, x)
                fs.append(self.truth_formula(r))
            return Or(*fs)
        if isinstance(b, str) and isinstance(a, str):
            return T.B(a in b)
        if isinstance(b, DictVal):
            return T.B(a in b.d)
        if isinstance(b, Ref):
            ar = self.get(b)
            f = self.np.compare(self, "Eq", b, a)
            return as_bool(self.np.reduce_any(self, f).v, "b")
        raise Unsupported("membership test")

    def ex_ListComp(self, e, fr):
        return self.comp(e, fr, True)

    def ex_GeneratorExp(self, e, fr):
        return self.comp(e, fr, False)

    def comp(self, e, fr, aslist):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        n, f = self.iterable(self.ev(g.iter, fr))
        c = n.const()
        f2 = Frame({}, fr.mod, fr.fn or True, parent=fr)
        if c is not None and c <= 16:
            out = []
            for i in range(int(c)):
                self.assign(g.target, f(T.const(i)), f2)
                if all(self.truth(self.ev(t, f2)) for t in g.ifs):
                    out.append(self.ev(e.elt, f2))
            return self.lst(out)
        if g.ifs:
            raise Unsupported("filtered comprehension of symbolic length")
        i = self.fresh_int("c")
        self.loop_idx.append(i)
        save_heap, save_pc = dict(self.heap), list(self.pc)
        self.assume(And(T.ge(i, 0), T.lt(i, n)))
        try:
            val = []

            def run():
                self.assign(g.target, f(i), f2)
                val.append(self.ev(e.elt, f2))
            before = dict(self.heap)
            res = self.explore(run, f2.env)
        finally:
            self.loop_idx.pop()
        vals = val[-len(res):] if res else []
        if not vals or any(r[1][0] != "normal" for r in res):
            raise Unsupported("comprehension with exits")
        for r in res:
            for cell in save_heap:
                if r[2].get(cell) is not save_heap[cell]:
                    raise Unsupported("comprehension with side effects")
        m = vals[-1]
        self.heap, self.pc = save_heap, save_pc
        for r, v in list(zip(res, vals))[:-1]:
            m = self.merge_vals(r[0], v, m)
        if isinstance(m, Sc):
            body = T.subst(m.v, {T.the_atom(i): IDX(0)})
            return self.arr((n,), m.k, body)
        raise Unsupported("comprehension of non-scalars")

    def ex_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e, fr)
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args += self.iter_concrete(self.ev(x.value, fr))
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, DictVal):
                    raise Unsupported("** of a non-dict")
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        w = self.where
        r = self.call(f, args, kw)
        self.where = w
        return r

    def make_super(self, e, fr):
        if e.args:
            cls = self.ev(e.args[0], fr)
            obj = self.ev(e.args[1], fr)
        else:
            f = fr
            while f is not None and not isinstance(f.fn, FuncVal):
                f = f.parent
            cls = f.fn.cls
            obj = f.env[f.fn.node.args.args[0].arg]
        return SuperVal(cls, obj)

    def call(self, f, args, kw):
        if isinstance(f, BoundMethod):
            return self.call_func(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw)
        if isinstance(f, ClassVal):
            o = Obj(self.newcell(ObjVal(f, {})))
            init = f.lookup("__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            return o
        if isinstance(f, Ext):
            return self.np.call_ext(self, f.name, list(args), kw)
        if isinstance(f, ExtMethod):
            return self.np.call_method(self, f.obj, f.name, list(args), kw)
        if callable(f):
            return f(*args, **kw)
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kw):
        qn = f.mod.name + "." + f.name
        s = self.summaries.get(qn)
        if s is not None and self.use_summaries:
            r = s(self, args, kw)
            if r is not NotImplemented:
                self.funcs.add(qn + " (contract)")
                return r
        if len(self.frames) > 30:
            raise Unsupported("recursion")
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise RaiseEx("TypeError", "too many arguments to " + qn)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise RaiseEx("TypeError", "multiple values for " + k)
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            raise RaiseEx("TypeError", "unexpected keyword %s for %s" % (list(extra)[0], qn))
        if a.kwarg is not None:
            env[a.kwarg.arg] = DictVal(extra)
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            env.setdefault(n, v)
        for x in a.kwonlyargs:
            if x.arg in f.kwdefaults:
                env.setdefault(x.arg, f.kwdefaults[x.arg])
        for n in names:
            if n not in env:
                raise RaiseEx("TypeError", "missing argument %s of %s" % (n, qn))
        fr = Frame(env, f.mod, f, parent=f.closure)
        self.funcs.add(qn)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()

    # ---------------------------------------------------------- attributes
    def getattr(self, o, n):
        if isinstance(o, Obj):
            ov = self.get(o)
            if n in ov.attrs:
                v = ov.attrs[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if n == "__class__":
                return ov.cls
            v = ov.cls.lookup(n)
            if v is None:
                raise RaiseEx("AttributeError", "%s has no attribute %s at %s" % (ov.cls.name, n, self.where))
            if isinstance(v, FuncVal):
                if v.kind == "staticmethod":
                    return v
                if v.kind == "classmethod":
                    return BoundMethod(ov.cls, v)
                if v.kind == "property":
                    return self.call_func(v, [o], {})
                return BoundMethod(o, v)
            return v
        if isinstance(o, SuperVal):
            obj = self.get(o.obj)
            mro = obj.cls.mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if n in c.attrs:
                    v = c.attrs[n]
                    return BoundMethod(o.obj, v) if isinstance(v, FuncVal) else v
            if n == "__init__":
                return lambda *a, **k: None
            raise RaiseEx("AttributeError", n)
        if isinstance(o, ModVal):
            return self.mod_attr(o, n)
        if isinstance(o, ClassVal):
            v = o.lookup(n)
            if v is None:
                if n == "__name__":
                    return o.name
                raise RaiseEx("AttributeError", n)
            return v
        if isinstance(o, Ext):
            return self.ext(o.name + "." + n)
        return self.np.getattr(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            ov = self.get(o)
            d = dict(ov.attrs)
            d[n] = v
            self.not_module_state(o.cell)
            self.heap[o.cell] = ObjVal(ov.cls, d)
            return
        if isinstance(o, Ref) and n == "shape":
            raise Unsupported("assignment to .shape")
        raise Unsupported("attribute assignment")

    # ---------------------------------------------------------- indexing
    def getitem(self, o, ix):
        return self.np.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        return self.np.setitem(self, o, ix, v)

    def store(self, base, sel, a):
        return self.np.store_sel(self, base, sel, a)


class Frame:
    def __init__(self, env, mod, fn, parent=None):
        self.env, self.mod, self.fn, self.parent = env, mod, fn, parent
        self.is_class = False
        self.cls = None


class RangeVal:
    def __init__(self, start, step, n):
        self.start, self.step, self.n = start, step, n


class EnumVal:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class ZipVal:
    def __init__(self, its):
        self.its = its


class RevVal:
    def __init__(self, it):
        self.it = it


def prod(shape):
    r = T.ONE
    for s in shape:
        r = r * s
    return r


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.v is b.v and a.k == b.k
    if isinstance(a, Ref) and isinstance(b, Ref):
        return type(a) is type(b) and a.cell == b.cell
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
        return a == b
    return False


PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.Attribute,
        ast.Add, ast.Sub, ast.Mult, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq,
        ast.USub, ast.UAdd, ast.Not, ast.And, ast.Or, ast.Load, ast.Is, ast.IsNot)


def is_pure(e):
    """Evaluation cannot fail or have effects (no calls, subscripts, divisions)."""
    for x in ast.walk(e):
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shape":
            continue
        if isinstance(x, (ast.Subscript, ast.Call)):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "shape":
                continue
            return False
        if isinstance(x, ast.BinOp) and not isinstance(x.op, (ast.Add, ast.Sub, ast.Mult)):
            if isinstance(x.op, (ast.Mod, ast.FloorDiv, ast.Div)) and isinstance(x.right, ast.Constant):
                continue
            return False
    return True


def mentions_h2(x, hv_atoms, hnames):
    def pred(a):
        kind = getattr(a, "kind", None)
        if kind is None:
            return a.args[0] in hnames
        if a in hv_atoms:
            return True
        return kind == "elem" and a.args[0] in hnames
    return T.contains_kind(x, pred) or bool(hv_atoms & x.fv)


def scattered(bd, ia, n, ixa, pc, depth=4):
    """Some guarded store goes to a cell that does not determine the iteration (heuristic)."""
    z = T.the_atom(bd)
    if z is None or z.kind != "ite" or not depth:
        return False
    c = z.args[0]
    parts = c.args if c.op == "and" else (c,)
    eqs = [f for f in parts if f.op == "eq" and f.fv & ixa]
    if any(ia in f.fv for f in eqs) and all(solve_for(f, ia, n, pc) is None for f in parts if f.op == "eq"):
        return True
    return any(scattered(x, ia, n, ixa, pc, depth - 1) for x in z.args[1:])


def own_reads(p, H, hname, idx):
    """Where a condition says that the cell g is this cell, read this cell instead of g."""
    a = T.the_atom(p)
    if a is None or a.kind != "ite":
        return p
    c, x, y = a.args
    cs = c.args if c.op == "and" else (c,)
    eqs = [f.args[0] for f in cs if f.op == "eq"]
    if eqs:
        mp = {}

        def pred(z):
            if getattr(z, "kind", None) == "elem" and z.args[0] == hname and not z.args[2]:
                if all(r is j or any(q is r - j or q is j - r for q in eqs) for r, j in zip(z.args[1], idx)):
                    mp[z] = H
            return False
        T.contains_kind(x, pred)
        if mp:
            x = T._subst(x, mp, frozenset(mp), {}, False)
    return T.ite(c, own_reads(x, H, hname, idx), own_reads(y, H, hname, idx))


def ite_minus(p, H):
    a = T.the_atom(p)
    if a is None or a.kind != "ite":
        return p - H
    return T.ite(a.args[0], ite_minus(a.args[1], H), ite_minus(a.args[2], H))


def flatten_arms(bd, H):
    """bd = ite(c1, v1, ite(c2, v2, ... H)) as [(cond, value)], or None."""
    arms = []
    cur = bd
    guard = []
    for _ in range(12):
        if cur is H:
            return arms
        ha = T.the_atom(H)
        # H + ite(c, v, 0) form produced by ite's common-part extraction
        a = T.the_atom(cur)
        if a is not None and a.kind == "ite":
            c, x, y = a.args
            tx, ty = tail_is(x, H), tail_is(y, H)
            if ty:
                arms.append((And(*guard, c), x) if not tx or x is not H else None)
                if arms[-1] is None:
                    arms.pop()
                if x is H:
                    guard.append(Not(c))
                    cur = y
                    continue
                if y is H:
                    # value x may itself be an ite over H: split it
                    sub = flatten_arms(x, H) if contains_leaf(x, H) else None
                    if sub is not None:
                        arms.pop()
                        for c2, v2 in sub:
                            arms.append((And(*guard, c, c2), v2))
                    return arms
                guard2 = Not(c)
                guard.append(guard2)
                cur = y
                continue
            if x is H:
                guard.append(Not(c))
                cur = y
                arms_rest = None
                continue
            if tx:
                guard.append(c)
                # y is a plain value on not c
                arms.append((And(*guard[:-1], Not(c)), y))
                cur = x
                continue
            # no H leaf: unconditional value
            arms.append((And(*guard), cur))
            return arms
        # H + sum of monomials with ite factors: read-modify-write
        rest = cur - H
        ite_at = [z for z in PR.top_atoms(rest) if z.kind == "ite" and not z.args[2].t]
        if len(ite_at) == 1 and all(any(b is ite_at[0] for b, _ in m) for m in rest.t):
            c = ite_at[0].args[0]
            val = H + T.subst_atom(rest, ite_at[0], ite_at[0].args[1])
            arms.append((And(*guard, c), val))
            return arms
        arms.append((And(*guard), cur))
        return arms
    return None


def tail_is(x, H):
    """Does the else-chain of x end in H itself?"""
    for _ in range(12):
        if x is H:
            return True
        a = T.the_atom(x)
        if a is None or a.kind != "ite":
            ra = x - H
            z = [q for q in PR.top_atoms(ra) if q.kind == "ite" and not q.args[2].t]
            return len(z) == 1 and all(any(b is z[0] for b, _ in m) for m in ra.t) and bool(ra.t)
        if a.args[1] is H:
            x = a.args[2]
            if not contains_leaf(x, H):
                return True
            continue
        x = a.args[2]
    return False


def contains_leaf(x, H):
    ha = T.the_atom(H)
    a = T.the_atom(x)
    if x is H:
        return True
    if a is not None and a.kind == "ite":
        return contains_leaf(a.args[1], H) or contains_leaf(a.args[2], H)
    return False


def solve_for(c, ia, n, pcx):
    """From condition c(i) derive i = g (g free of i)."""
    parts = c.args if c.op == "and" else (c,)
    for f in parts:
        if f.op == "eq" and ia in f.fv:
            li = smt.linear_in(f.args[0], ia)
            if li and li[0] in (1, -1):
                return -li[1] * li[0]
            # a*i + rest == 0 with symbolic/other constant coefficient
            p = f.args[0]
            coef, rest = T.ZERO, T.ZERO
            ok = True
            for m, k in p.t.items():
                if (ia, 1) in m:
                    r = tuple(z for z in m if z[0] is not ia)
                    if any(ia in b.fv for b, _ in r):
                        ok = False
                        break
                    coef = coef + Poly.make({r: k})
                elif any(ia in b.fv for b, _ in m):
                    ok = False
                    break
                else:
                    rest = rest + Poly.make({m: k})
            if ok and coef.is_int and rest.is_int and coef.t:
                if PR.ent(pcx, T.gt(coef, 0)):
                    return T.fdiv(-rest, coef)
                if PR.ent(pcx, T.lt(coef, 0)):
                    return T.fdiv(rest, -coef)
            # mod(x - i, m) == 0 with 0 <= i < m   =>  i = x mod m
            a = T.the_atom(p)
            if a is not None and a.kind == "mod":
                li = smt.linear_in(a.args[0], ia)
                if li and li[0] in (1, -1) and ia not in a.args[1].fv:
                    if PR.ent(pcx, T.le(n, a.args[1])):
                        return T.mod(-li[1] * li[0], a.args[1])
            # X +- mod(r +- i, m) == 0 with 0 <= i < n <= m   =>  i = (+-(X - r)) mod m
            for m, k in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and k in (1, -1) and getattr(m[0][0], "kind", None) == "mod":
                    a = m[0][0]
                    X = (a.poly * k - p) * k
                    li = smt.linear_in(a.args[0], ia)
                    if li and li[0] in (1, -1) and ia not in a.args[1].fv and ia not in X.fv and X.is_int and \
                            PR.ent(pcx, T.le(n, a.args[1])):
                        return T.mod((X - li[1]) * li[0], a.args[1])
        # |x - i| <= 0 etc. are not used
    # two inequalities pinning i:  i <= g and i >= g
    lo, hi = [], []
    for f in parts:
        if f.op == "le":
            li = smt.linear_in(f.args[0], ia)
            if li and li[0] == 1:
                hi.append(-li[1])
            elif li and li[0] == -1:
                lo.append(li[1])
    for x in lo:
        for y in hi:
            if x is y:
                return x
            # bw*i <= r < bw*(i+1) style handled by fdiv rule elsewhere
    return None


def replace_h(val, hname, H, A0, idx, c, ia, pcx, owns):
    """Replace reads of the loop array by its initial value where the cell read
    is provably untouched by the other iterations (owned by this one)."""
    hits = []

    def pred(a):
        if getattr(a, "kind", None) == "elem" and a.args[0] == hname:
            hits.append(a)
        return False
    T.contains_kind(val, pred)
    if not hits:
        return val
    m = {}
    i2 = T.fresh("i2")
    for a in hits:
        rd = a.args[1]
        sub = {T.the_atom(x): r for x, r in zip(idx, rd)}
        same = all(x is r for x, r in zip(idx, rd))
        if any(T.contains_kind(r, lambda z: getattr(z, "kind", "") == "var" and str(z.args[0]).startswith("@")) for r in rd):
            return None
        for _, c2, _, _ in owns:
            cond = T.subst(T.subst(c2, sub), {ia: i2})
            i = ia.poly
            n_ok = pcx.add(c, T.ge(i2, 0), T.lt(i2, i), cond) if not same else \
                pcx.add(c, T.ge(i2, 0), T.lt(i2, i), cond)
            if not PR.ent(n_ok, FALSE):
                return None
        v = T.subst(as_num(A0.body, A0.k), sub)
        m[a] = T.conj(v) if a.args[2] else v
    return T._subst(val, m, frozenset(m), {}, False)
