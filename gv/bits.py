"""Matrices and vectors of bits with symbolic shapes, for index contracts over mathematical integers (sym.INT)."""
from __future__ import annotations
import itertools
from . import sym
from .sym import SI, SBool, Content, z3
from .core import Unfit

def ix(v): return SI.of(v).e

class Bit(SBool):
    """A cell holding 0 or 1."""
    __slots__ = ()
    @staticmethod
    def of(v):
        if isinstance(v, SBool): return v.e
        if isinstance(v, (int, bool)) and v in (0, 1): return z3.BoolVal(bool(v))
        raise Unfit(f"bit expected, got {v!r}")
    def __eq__(self, o):
        if isinstance(o, int): return SBool(self.e if o == 1 else z3.Not(self.e) if o == 0 else z3.BoolVal(False))
        return SBool(self.e == Bit.of(o))
    def __ne__(self, o): return ~(self == o)
    def __xor__(self, o): return Bit(z3.Xor(self.e, Bit.of(o)))
    def __and__(self, o): return Bit(z3.And(self.e, Bit.of(o)))
    def __or__(self, o): return Bit(z3.Or(self.e, Bit.of(o)))
    __rxor__, __rand__, __ror__ = __xor__, __and__, __or__
    def __add__(self, o): raise Unfit("integer addition of bits")
    __radd__ = __mul__ = __rmul__ = __sub__ = __add__
    __hash__ = None

class BArr(Content):
    """content(*index) -> z3 Bool; `shape`: tuple of SI."""
    def __init__(self, name, shape, content=None, frozen=False):
        self.name, self.shape, self.frozen = name, tuple(SI.of(s) for s in shape), frozen
        f = z3.Function(sym.CUR.fresh(name), *[z3.IntSort()] * len(self.shape), z3.BoolSort())
        self.content = content or (lambda *a: f(*a))
        self.owner = None
    @property
    def size(self): return self.shape[0]
    def _idx(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if len(i) != len(self.shape) or any(isinstance(x, slice) for x in i):
            raise Unfit(f"{self.name}: index {i}")
        i = tuple(SI.of(x) for x in i)
        for x, n in zip(i, self.shape):
            sym.CUR.prove(f"{self.name}: index in bounds", sym.band(x >= 0, x < n))
        if self.owner is not None:
            own, me = self.owner
            sym.CUR.prove("parallel iterations touch disjoint cells", own(*i) == me)
        return tuple(x.e for x in i)
    def __getitem__(self, i): return Bit(self.content(*self._idx(i)))
    def __setitem__(self, i, v):
        if self.frozen:
            sym.CUR.prove(f"{self.name} is not modified", False)
        i = self._idx(i); old = self.content; v = Bit.of(v)
        self.content = lambda *a: z3.If(z3.And([x == y for x, y in zip(a, i)]), v, old(*a))
    def compare(self, eng, lab, val):
        xs = [sym.bvar("x") for _ in self.shape]
        rng = z3.And([z3.And(x.e >= 0, x.e < n.e) for x, n in zip(xs, self.shape)])
        eng.prove(lab, z3.Implies(rng, self.content(*[x.e for x in xs]) == val(*[x.e for x in xs])))

def qvars(k, base="q"):
    c = next(_n)
    return [z3.Int(f"{base}{c}_{j}") for j in range(k)]
_n = itertools.count()

def forall(k, f, pat=None):
    v = qvars(k)
    body = f(*v)
    try:
        ps = [pat(*v)] if pat else []
        if any(z3.is_app(p) and p.decl().kind() != z3.Z3_OP_UNINTERPRETED for p in ps if not isinstance(p, z3.PatternRef)):
            ps = []
        return z3.ForAll(v, body, patterns=ps)
    except z3.Z3Exception:
        return z3.ForAll(v, body)

def exists(k, f):
    v = qvars(k)
    return z3.Exists(v, f(*v))

class Sum:
    """S(t) = XOR of g(0), ..., g(t-1): a recursively defined prefix parity."""
    def __init__(self, g, extra=0):
        """g(*params, t); `extra` parameters."""
        self.g, self.extra = g, extra
        self.f = z3.Function(sym.CUR.fresh("parity"), *[z3.IntSort()] * (extra + 1), z3.BoolSort())
    def __call__(self, *a): return self.f(*a)
    def define(self, *a):
        """unfold at t: S(..., t+1) = S(..., t) ^ g(..., t) for the given terms (no quantifier)"""
        *p, t = a
        sym.CUR.assume(self.f(*p, t + 1) == z3.Xor(self.f(*p, t), self.g(*p, t)))
        sym.CUR.assume(z3.Not(self.f(*p, z3.IntVal(0))))

def lemma(label, bound, stmt, unfold, hyp=None):
    """Induction on t in [0, bound]: proves stmt(0) and stmt(t) -> stmt(t+1), then assumes stmt(bound).
    `unfold(t)` instantiates the definitions at t; `hyp` are facts available for every t (quantified)."""
    eng = sym.CUR
    for t0 in (z3.IntVal(0),):
        unfold(t0)
        eng.prove(f"lemma {label}: base", stmt(t0))
    t = z3.Int(eng.fresh("t"))
    unfold(t)
    eng.prove(f"lemma {label}: step", z3.Implies(z3.And(t >= 0, t < bound, stmt(t)), stmt(t + 1)))
    eng.assume(z3.Implies(bound >= 0, stmt(bound)))

def run_int(fn):
    """Run `fn` with mathematical integers as indices."""
    def g(*a, **k):
        old, sym.INT = sym.INT, True
        try:
            return fn(*a, **k)
        finally:
            sym.INT = old
    return g
