"""Tensors with an arbitrary number of two-dimensional axes: where does every leg end up?

A tensor is a set of named legs with (symbolic) positions.  Besides the legs an operation names, one arbitrary leg of every
group ("spectator") is tracked; numpy's reshape, tensordot, moveaxis, transpose, einsum act on legs position by position, so
what holds for the spectator holds for every leg.  Contractions are recorded as pairs of legs.
"""
from __future__ import annotations
import builtins, itertools
import numpy as np
from . import boot
from .core import Unfit
from .cutloop import ZI
from .fsets import cur
z3 = boot.z3()

class Pow2:
    """2**e"""
    def __init__(self, e): self.e = e
    def bit_length(self): return N(self.e + 1)
    def __mul__(self, o): return Pow2(self.e + o.e) if isinstance(o, Pow2) else NotImplemented
    def __eq__(self, o):
        if isinstance(o, int) and o > 0 and not o & (o - 1): o = Pow2(z3.IntVal(o.bit_length() - 1))
        return cur().decide(self.e == o.e) if isinstance(o, Pow2) else False
    def __ne__(self, o): return not self == o
    __hash__ = None

class Rep:
    """(2,) * e"""
    def __init__(self, e): self.e = e
    def __mul__(self, o): return Rep(self.e * ZI.of(o))
    __rmul__ = __mul__
    def __add__(self, o): return Rep(self.e + len(o)) if isinstance(o, (tuple, list)) and all(x == 2 for x in o) else Rep(self.e + o.e) if isinstance(o, Rep) else NotImplemented
    __radd__ = __add__

class N(ZI):
    """An arbitrary size or axis: repeats (2,) and [2], exponent of 2."""
    def __rmul__(self, o):
        if isinstance(o, (tuple, list)) and len(o) == 1 and o[0] == 2: return Rep(self.e)
        return N(self.e * ZI.of(o))
    def __mul__(self, o): return self.__rmul__(o)
    def __rpow__(self, o):
        if o != 2: raise Unfit("a power")
        return Pow2(self.e)
    def __rlshift__(self, o): return Pow2(self.e) if o == 1 else NotImplemented
    def __add__(self, o): return N(self.e + ZI.of(o))
    def __sub__(self, o): return N(self.e - ZI.of(o))
    def __radd__(self, o): return N(ZI.of(o) + self.e)
    def __rsub__(self, o): return N(ZI.of(o) - self.e)
    def __neg__(self): return N(-self.e)

def num(o): return N(ZI.of(o))
def valid(f):
    eng = cur(); f = f if isinstance(f, z3.ExprRef) else z3.BoolVal(bool(f))
    eng.solver.push(); eng.solver.add(z3.Not(f))
    try: return str(eng.solver.check()) == "unsat"
    finally: eng.solver.pop()
def count(ps, x): return z3.Sum([z3.If(p < x, 1, 0) for p in ps]) if ps else z3.IntVal(0)
def ints(x): return [x] if isinstance(x, (int, ZI)) else list(x)

def axis(p, rank):
    """negative axes count from the end"""
    p = z3.simplify(ZI.of(p))
    if z3.is_int_value(p): return rank + p if p.as_long() < 0 else p
    return rank + p if valid(p < 0) else p

class Mark:
    """The arbitrary t-th element of a sequence of the length `n` of all marks."""
    def __init__(self, e, t, n): self.e, self.t, self.n = e, t, n
    def __add__(self, o): return Mark(self.e + ZI.of(o), self.t, self.n)
    __radd__ = __add__
    def __sub__(self, o): return Mark(self.e - ZI.of(o), self.t, self.n)
    def _no(self, *a): raise Unfit("an arbitrary element is inspected")
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __index__ = __int__ = _no
    __hash__ = None

class Ten:
    """legs: name -> position; rank; pairs: contracted legs; rows: number of row axes if it is seen as a matrix, None otherwise
    (rank axes), or "flat" (a vector of 2**rank entries)."""
    __array_priority__ = 1000
    def __init__(self, legs, rank, pairs=(), rows=None, conj=False, scale=()): self.legs, self.rank, self.pairs, self.rows, self.scale = dict(legs), rank, tuple(pairs), rows, tuple(scale)
    dtype = np.dtype(np.complex128)
    def _with(self, **k):
        t = type(self)(self.legs, self.rank, self.pairs, self.rows, scale=self.scale)
        for a, v in k.items(): setattr(t, a, v)
        return t
    @property
    def shape(self):
        if self.rows is None: return Rep(self.rank)
        if isinstance(self.rows, str): return (Pow2(self.rank),)
        return Pow2(self.rows), Pow2(self.rank - self.rows)
    def __len__(self):
        if self.rows is None: raise Unfit("length of a tensor")
        e = z3.simplify(self.rank if isinstance(self.rows, str) else self.rows)
        if z3.is_int_value(e): return 2 ** e.as_long()
        raise Unfit("length")
    def reshape(self, *s):
        s = s[0] if len(s) == 1 else s
        if isinstance(s, (tuple, list)) and s and all(isinstance(x, int) and x == 2 for x in s) and not (len(s) == 2 and self.rows is not None and valid(self.rank == 2)): s = Rep(z3.IntVal(len(s)))
        if isinstance(s, (tuple, list)) and len(s) == 0: s = Rep(z3.IntVal(0))
        if isinstance(s, Rep): size, rows = s.e, None
        elif isinstance(s, Pow2): size, rows = s.e, "flat"
        elif isinstance(s, (tuple, list)):
            p = [Pow2(z3.IntVal(x.bit_length() - 1)) if isinstance(x, int) and x > 0 and not x & (x - 1) else x for x in s]
            if not all(isinstance(x, Pow2) for x in p): raise Unfit("shape")
            if len(p) == 1: size, rows = p[0].e, "flat"
            elif len(p) == 2: size, rows = p[0].e + p[1].e, p[0].e
            else: raise Unfit("shape")
        else: raise Unfit("shape")
        cur().prove("the entries fit the new shape", self.rank == size)
        return self._with(rows=rows)
    def astype(self, t, copy=True, **k):
        if t not in (np.complex128, np.object_, complex): raise Unfit("type")
        return self._with()
    def copy(self): return self._with()
    def flatten(self): return self._with(rows="flat")
    ravel = flatten
    def conj(self): return self._with(legs={flip(l): p for l, p in self.legs.items()}, pairs=[tuple(map(flip, q)) for q in self.pairs], scale=[("conj", x) for x in self.scale])
    conjugate = conj
    @property
    def T(self):
        if self.rows is None or isinstance(self.rows, str): raise Unfit("transpose of a tensor")
        r, c = self.rows, self.rank - self.rows
        return self._with(legs={l: z3.If(p < r, p + c, p - r) for l, p in self.legs.items()}, rows=c)
    def transpose(self): return self.T
    def at(self, p):
        """the leg on an axis"""
        p = axis(p, self.rank)
        hits = [l for l, q in self.legs.items() if valid(p == q)]
        if len(hits) == 1: return hits[0], p
        cur().prove("operators meet the axes of their targets", z3.Or(*[p == q for q in self.legs.values()]))
        raise Unfit("which axis?")
    def __getattr__(self, a): raise Unfit(f"operation on a tensor: {a}")
    def _no(self, *a): raise Unfit("operation on a tensor")
    __getitem__ = __setitem__ = __iter__ = __add__ = __sub__ = __mul__ = __matmul__ = __truediv__ = __itruediv__ = __bool__ = __eq__ = _no
    __hash__ = None

def flip(l): return (l[0], not l[1], *l[2:])          # leg = (tensor, conjugated, ...)

def tensordot(a, b, axes):
    if not (isinstance(a, Ten) and isinstance(b, Ten)): raise Unfit("operands")
    if isinstance(axes, int): raise Unfit("axes")
    a, b = matrix_as_tensor(a), matrix_as_tensor(b)
    x, y = ints(axes[0]), ints(axes[1])
    if len(x) != len(y): cur().prove("as many axes on both sides", z3.BoolVal(False)); raise Unfit("axes")
    hx, hy = [a.at(p) for p in x], [b.at(p) for p in y]
    if len({h[0] for h in hx}) < len(hx) or len({h[0] for h in hy}) < len(hy): raise Unfit("repeated axes")
    px, py = [h[1] for h in hx], [h[1] for h in hy]; k = len(x); legs = {}
    for l, p in a.legs.items():
        if l not in [h[0] for h in hx]: legs[l] = p - count(px, p)
    for l, p in b.legs.items():
        if l in legs: raise Unfit("a tensor meets itself")
        if l not in [h[0] for h in hy]: legs[l] = a.rank - k + p - count(py, p)
    return Ten(legs, a.rank + b.rank - 2 * k, [*a.pairs, *b.pairs, *[(u[0], v[0]) for u, v in zip(hx, hy)]], scale=[*a.scale, *b.scale])

def matrix_as_tensor(t):
    if t.rows is None: return t
    one = valid(t.rank == 1) if isinstance(t.rows, str) else valid(z3.And(t.rows == 1, t.rank == 2))
    if not one: raise Unfit("a matrix of many qubits in a contraction")
    return t._with(rows=None)

def moveaxis(t, source, destination):
    eng = cur(); s, d = ints(source), ints(destination)
    if t.rows is not None: t = matrix_as_tensor(t)
    if len(s) != len(d): raise Unfit("axes")
    hs = [t.at(p) for p in s]; dst = [axis(p, t.rank) for p in d]
    for p in dst: eng.prove("axes are in range", z3.And(p >= 0, p < t.rank))
    eng.prove("axes are distinct", z3.Distinct(*dst) if len(dst) > 1 else z3.BoolVal(True))
    src = [h[1] for h in hs]; legs = {h[0]: p for h, p in zip(hs, dst)}
    for l, p in t.legs.items():
        if l in legs: continue
        y = z3.Int(eng.fresh("slot")); legs[l] = y
        eng.assume(z3.And(y >= 0, y < t.rank, *[y != q for q in dst], y - count(dst, y) == p - count(src, p)))
    return t._with(legs=legs)

def transpose(t, axes=None):
    """axes: one Mark per block of equally many axes"""
    eng = cur(); ms = list(axes)
    if t.rows is not None or not all(isinstance(m, Mark) for m in ms): raise Unfit("axes")
    off = z3.IntVal(0); legs = {}
    for m in ms:
        e = axis(N(m.e), t.rank); hit = [l for l, p in t.legs.items() if valid(p == e)]
        if len(hit) != 1: eng.prove("axes are permuted within the rows and within the columns", z3.Or(*[e == p for p in t.legs.values()])); raise Unfit("which axis?")
        legs[hit[0]] = off + m.t; off = off + m.n
    eng.prove("all axes are permuted", off == t.rank)
    return t._with(legs={l: legs[l] for l in t.legs if l in legs})

class Idx:
    """An array of axis labels: base + position, with some entries replaced; or an explicit list of labels."""
    def __init__(self, base, n, upd=(), items=None): self.base, self.n, self.upd, self.items = base, n, list(upd), items
    def copy(self): return Idx(self.base, self.n, self.upd, self.items)
    def __getitem__(self, k):
        k = ZI.of(k)
        if self.items is not None:
            k = z3.simplify(k)
            if not z3.is_int_value(k): raise Unfit("index")
            return N(self.items[k.as_long()])
        r = self.base + k
        for p, v in self.upd: r = z3.If(k == p, v, r)
        return N(r)
    def __setitem__(self, k, v):
        if self.items is not None: raise Unfit("index array")
        cur().prove("the entry exists", z3.And(ZI.of(k) >= 0, ZI.of(k) < self.n)); self.upd.append((ZI.of(k), ZI.of(v)))
    def expand(self):
        if self.items is not None: return self.items
        n = z3.simplify(self.n)
        if not z3.is_int_value(n): raise Unfit("index array")
        return [self[i].e for i in range(n.as_long())]
    def at(self, p): return self[N(p)].e
    def __len__(self):
        if self.items is not None: return len(self.items)
        raise Unfit("length")
    def __iter__(self): return iter([N(x) for x in self.expand()])
    def __getattr__(self, a): raise Unfit(f"operation on indices: {a}")

class Range:
    def __init__(self, a, b): self.a, self.b = a, b
    def __iter__(self): raise Unfit("a loop over the axes")
def rng(*a):
    if all(isinstance(x, int) for x in a): return builtins.range(*a)
    if len(a) == 1: return Range(z3.IntVal(0), ZI.of(a[0]))
    if len(a) == 2: return Range(ZI.of(a[0]), ZI.of(a[1]))
    raise Unfit("range")

def array(x, *a, **k):
    if isinstance(x, Range):
        n = z3.simplify(x.b - x.a)
        return Idx(x.a, n)
    if isinstance(x, (list, tuple)) and any(isinstance(v, ZI) for v in x): return Idx(None, z3.IntVal(len(x)), items=[ZI.of(v) for v in x])
    if isinstance(x, (Ten, Idx)): return x.copy()
    return np.array(x, *a, **k)

def concatenate(xs, *a, **k):
    out = []
    for x in xs: out += x.expand() if isinstance(x, Idx) else [ZI.of(v) for v in x]
    return Idx(None, z3.IntVal(len(out)), items=out)

def einsum(a, ia, b, ib, out):
    """two operands; labels of the first one are listed"""
    eng = cur()
    if not (isinstance(a, Ten) and isinstance(b, Ten)): raise Unfit("operands")
    a, b = matrix_as_tensor(a), matrix_as_tensor(b)
    la = ia.expand() if isinstance(ia, Idx) else [ZI.of(v) for v in ia]
    if not valid(a.rank == len(la)): raise Unfit("labels of the operator")
    if not all(isinstance(i, Idx) and i.items is None for i in (ib, out)): raise Unfit("labels")
    eng.prove("every axis has a label", z3.And(ib.n == b.rank))
    labA = {a.at(i)[0]: la[i] for i in range(len(la))}; labB = {l: ib.at(p) for l, p in b.legs.items()}
    pairs, legs, used = [], {}, set()
    for l, e in labA.items():
        hit = [m for m, f in labB.items() if valid(e == f)]
        if len(hit) == 1: pairs.append((l, hit[0])); used |= {l, hit[0]}
        elif hit: raise Unfit("labels")
        else:
            eng.prove("other labels of the operator are fresh", z3.And(*[e != f for f in labB.values()], z3.Or(e >= ib.n, e < 0)))
    cands = [N(z3.IntVal(0)).e, *b.legs.values()]
    for l, e in [*labA.items(), *labB.items()]:
        hit = next((p for p in cands if valid(out.at(p) == e)), None)
        if l in used: eng.prove("contracted labels are summed over", z3.And(*[out.at(p) != e for p in cands])); continue
        if hit is None: eng.prove("every free label is in the result", z3.Or(*[out.at(p) == e for p in cands])); raise Unfit("labels")
        legs[l] = hit
    eng.prove("the rank of the result", out.n == a.rank + b.rank - 2 * len(pairs))
    return Ten(legs, out.n, [*a.pairs, *b.pairs, *pairs], scale=[*a.scale, *b.scale])

def log2(x): return N(x.e) if isinstance(x, Pow2) else np.log2(x)
def isclose(a, b, **k): return a is b if isinstance(a, ZI) and isinstance(b, ZI) else np.isclose(a, b, **k)

class _IntT(type):
    def __instancecheck__(c, o): return isinstance(o, (builtins.int, N)) and not isinstance(o, Mark)
class int_(metaclass=_IntT):
    def __new__(cls, x=0): return x if isinstance(x, ZI) else builtins.int(x)
class _Set:
    def __init__(self, xs): self.xs = list(xs)
    def __len__(self):
        out = []
        for x in self.xs:
            if not any(bool(x == y) for y in out): out.append(x)
        return len(out)
def set_(x=()): return _Set(x) if any(isinstance(v, ZI) for v in x) else builtins.set(x)

class NumpyT:
    """numpy on tensors with symbolic axes"""
    tensordot = staticmethod(tensordot); moveaxis = staticmethod(moveaxis); transpose = staticmethod(transpose); einsum = staticmethod(einsum)
    array = staticmethod(array); concatenate = staticmethod(concatenate); log2 = staticmethod(log2); isclose = staticmethod(isclose)
    asarray = staticmethod(array)
    complex128, object_ = np.complex128, np.object_
    @staticmethod
    def eye(n, *a, **k):
        if not isinstance(n, int) or n & (n - 1): raise Unfit("identity")
        k = n.bit_length() - 1
        return Ten({**{("id", False, "row", j): z3.IntVal(j) for j in range(k)}, **{("id", False, "col", j): z3.IntVal(k + j) for j in range(k)}}, z3.IntVal(2 * k), rows=z3.IntVal(k))
    @staticmethod
    def trace(t, *a, **k):
        """the trace of a square matrix: row axis j meets column axis j"""
        if not isinstance(t, Ten): return np.trace(t, *a, **k)
        if a or k or t.rows is None or isinstance(t.rows, str): raise Unfit("trace")
        cur().prove("the trace is that of a square matrix", 2 * t.rows == t.rank)
        return Trace(t)
    def __getattr__(self, a): raise Unfit(f"numpy.{a}")

class Trace:
    def __init__(self, t): self.t = t

def operator(name, k):
    """an arbitrary 2^k x 2^k matrix"""
    return Ten({**{(name, False, "out", j): z3.IntVal(j) for j in range(k)}, **{(name, False, "in", j): z3.IntVal(k + j) for j in range(k)}}, z3.IntVal(2 * k), rows=z3.IntVal(k))

ENV = dict(np=NumpyT(), int=int_, set=set_, range=rng, tensordot=tensordot)

class Arr:
    """An opaque array: a term and a type.  In-place operations replace the term."""
    def __init__(self, val, dtype=np.dtype(np.complex128)): self.val, self.dtype = val, np.dtype(dtype)
    def astype(self, t, copy=True, **k):
        if k: raise Unfit("astype")
        if np.dtype(t) == self.dtype and not copy: return self
        if self.dtype == np.object_ and np.dtype(t) != np.object_: raise TypeError("symbolic entries are not numbers")
        return Arr(self.val, t)
    def copy(self): return Arr(self.val, self.dtype)
    def __copy__(self): return self.copy()
    def _op(self, name, *a): return Arr((name, *[x.val if isinstance(x, Arr) else x for x in a]), np.result_type(*[x.dtype for x in a if isinstance(x, Arr)]))
    def conj(self): return self._op("conj", self)
    conjugate = conj
    def __matmul__(self, o): return self._op("@", self, o)
    def __mul__(self, o): return self._op("*", self, o) if not (isinstance(o, Arr) and repr(o.val) < repr(self.val)) else self._op("*", o, self)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._op("/", self, o)
    def __itruediv__(self, o): self.val = ("/", self.val, o.val if isinstance(o, Arr) else o); return self
    def trace(self): return self._op("trace", self)
    def _no(self, *a): raise Unfit("operation on an array")
    __getitem__ = __setitem__ = __iter__ = __len__ = __add__ = __sub__ = __bool__ = __eq__ = _no
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"operation on an array: {a}")

class NumpyA:
    """numpy on opaque arrays"""
    complex128, object_ = np.complex128, np.object_
    def __getattr__(self, a): raise Unfit(f"numpy.{a}")
for _n in ("tensordot", "kron", "outer", "vdot", "dot", "matmul", "trace", "conj", "conjugate"):
    def _f(*a, gv_name={"matmul": "@", "conjugate": "conj"}.get(_n, _n), **k):
        if k.pop("out", None) is not None: raise Unfit("out")
        return Arr(None)._op(gv_name, *a, *sorted(k.items()))
    setattr(NumpyA, _n, staticmethod(_f))
