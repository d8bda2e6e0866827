"""Angles and trigonometric polynomials as symbolic values on which the real code is executed.

`Ang` is an affine form  c0 + sum c_v * v  over angle variables; its cos/sin/exp are `LP`s: Laurent polynomials in
the characters e^{i k pi v}.  Distinct characters are linearly independent functions, so two LPs are equal *for all
real values of the variables* iff their coefficients coincide (compared up to 1e-9: machine arithmetic of the
coefficients is treated as mathematical).  Both are graphix `Expression`s, so graphix accepts them wherever it accepts
parametric angles, and the code that runs is the unmodified code of /repo.
"""
from __future__ import annotations
import cmath, math
from fractions import Fraction
from numbers import Number
from . import boot  # noqa: F401
import numpy as np
from graphix.fundamentals import Sign
from graphix.parameter import Expression, ExpressionWithTrigonometry, Parameter

TOL = 1e-9

def _num(x):
    return isinstance(x, (Number, np.number)) and not isinstance(x, Expression)

class _Base(ExpressionWithTrigonometry):
    __array_priority__ = 1000
    def __sub__(self, o): return self + (-1) * o
    def __rsub__(self, o): return (-1) * self + o
    def __neg__(self): return (-1) * self
    def __radd__(self, o): return self + o
    def __rmul__(self, o): return self * o
    def with_parameter(self, variable, substitute): return self.with_parameters({variable: substitute})
    def evalf(self, env):  # env: var name -> float
        raise NotImplementedError

class Ang(_Base):
    """Affine angle expression."""
    def __init__(self, terms=None, const=0.0):
        self.terms = {v: c for v, c in (terms or {}).items() if abs(c) > 1e-12}
        self.const = const
    def __add__(self, o):
        if isinstance(o, Ang):
            t = dict(self.terms)
            for v, c in o.terms.items():
                t[v] = t.get(v, 0) + c
            return Ang(t, self.const + o.const)
        if _num(o):
            return Ang(self.terms, self.const + o)
        return NotImplemented
    def __mul__(self, o):
        if isinstance(o, Sign):
            o = float(o)
        if _num(o):
            return Ang({v: c * o for v, c in self.terms.items()}, self.const * o)
        return NotImplemented
    def __truediv__(self, o):
        if _num(o):
            return self * (1 / o)
        return NotImplemented
    def exp(self):
        key = []
        for v, c in self.terms.items():
            k = c / (1j * math.pi)
            if abs(k.imag) > 1e-9:
                raise ValueError("exp of a non-imaginary angle")
            f = Fraction(k.real).limit_denominator(64)
            if abs(float(f) - k.real) > 1e-9:
                raise ValueError("irrational character")
            if f:
                key.append((v, f))
        return LP({tuple(sorted(key)): cmath.exp(self.const)})
    def cos(self):
        e = (self * 1j).exp(); f = (self * -1j).exp()
        return (e + f) * 0.5
    def sin(self):
        e = (self * 1j).exp(); f = (self * -1j).exp()
        return (e + f * -1) * (-0.5j)
    def with_parameters(self, assignment):
        t, c = {}, self.const
        by = {p.pname: val for p, val in assignment.items() if isinstance(p, Var)}
        r = Ang({}, c)
        for v, k in self.terms.items():
            r = r + (by[v] * k if v in by else Ang({v: k}))
        return r if r.terms else (r.const.real if abs(complex(r.const).imag) < 1e-12 else r.const)
    def evalf(self, env): return self.const + sum(c * env[v] for v, c in self.terms.items())
    def same(self, o, mod=None):
        """Equal as functions, modulo `mod` (e.g. 2 for angles in units of pi)."""
        d = self - o if isinstance(o, (Ang,)) or _num(o) else None
        if d is None:
            return False
        if any(abs(c) > 1e-9 for c in d.terms.values()):
            return False
        k = d.const
        if mod:
            k = (complex(k).real + mod / 2) % mod - mod / 2
        return abs(k) < 1e-9
    def __eq__(self, o): return isinstance(o, Ang) and self.terms == o.terms and abs(self.const - o.const) < 1e-12
    def __hash__(self): return 17
    def __repr__(self): return f"Ang({self.terms}, {self.const})"

class Var(Ang, Parameter):
    def __init__(self, name):
        super().__init__({name: 1.0}, 0.0)
        self.pname = name
    def __eq__(self, o): return isinstance(o, Var) and o.pname == self.pname
    def __hash__(self): return hash(self.pname)
    def __repr__(self): return self.pname

class LP(_Base):
    """Laurent polynomial in the characters e^{i k pi v}."""
    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if abs(v) > 1e-13}
    @staticmethod
    def of(x):
        if isinstance(x, LP):
            return x
        if _num(x):
            return LP({(): complex(x)})
        raise TypeError(f"not a trigonometric polynomial: {x!r}")
    def __add__(self, o):
        if isinstance(o, LP):
            r = dict(self.d)
            for k, v in o.d.items():
                r[k] = r.get(k, 0) + v
            return LP(r)
        if _num(o):
            return self + LP.of(o)
        return NotImplemented
    def __mul__(self, o):
        if _num(o):
            return LP({k: v * o for k, v in self.d.items()})
        if isinstance(o, LP):
            r = {}
            for k1, v1 in self.d.items():
                for k2, v2 in o.d.items():
                    m = dict(k1)
                    for v, e in k2:
                        m[v] = m.get(v, 0) + e
                    k = tuple(sorted((v, e) for v, e in m.items() if e))
                    r[k] = r.get(k, 0) + v1 * v2
            return LP(r)
        return NotImplemented
    def __truediv__(self, o):
        if isinstance(o, LP) and set(o.d) == {()}:
            o = o.d[()]
        if _num(o):
            return self * (1 / o)
        return NotImplemented
    def conjugate(self):
        return LP({tuple((v, -e) for v, e in k): complex(c).conjugate() for k, c in self.d.items()})
    conj = conjugate
    @property
    def real(self): return (self + self.conjugate()) * 0.5
    @property
    def imag(self): return (self + self.conjugate() * -1) * -0.5j
    def cos(self): raise TypeError
    def sin(self): raise TypeError
    def exp(self): raise TypeError
    def with_parameters(self, assignment):
        by = {p.pname: float(val) for p, val in assignment.items() if isinstance(p, Var)}
        r = {}
        for k, c in self.d.items():
            rest = []
            for v, e in k:
                if v in by:
                    c = c * cmath.exp(1j * math.pi * float(e) * by[v])
                else:
                    rest.append((v, e))
            r[tuple(rest)] = r.get(tuple(rest), 0) + c
        p = LP(r)
        return p if any(p.d) else p.d.get((), 0j)
    def evalf(self, env): return sum(c * cmath.exp(1j * math.pi * sum(float(e) * env[v] for v, e in k)) for k, c in self.d.items())
    def is_zero(self): return all(abs(v) < TOL for v in self.d.values())
    def __eq__(self, o):
        try:
            return (self - LP.of(o)).is_zero()
        except TypeError:
            return False
    def __hash__(self): return 3
    def __repr__(self): return f"LP({self.d})"

def lp_array(a):
    """object array of LPs from a numeric or symbolic array."""
    a = np.asarray(a)
    r = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(a):
        r[i] = LP.of(x.item() if isinstance(x, np.generic) else x)
    return r

def vanish(a) -> bool:
    return all(x.is_zero() for x in lp_array(a).flat)

def equal(a, b) -> bool:
    """a == b for all values of the variables."""
    a, b = lp_array(a), lp_array(b)
    return a.shape == b.shape and vanish(a - b)

def proportional(a, b) -> bool:
    """a and b are proportional (cross products vanish) for all values of the variables, and neither is identically 0."""
    a, b = lp_array(a).ravel(), lp_array(b).ravel()
    if a.shape != b.shape:
        return False
    nz = [i for i in range(len(b)) if not b[i].is_zero()]
    if not nz:
        return vanish(a)
    i = nz[0]
    return not vanish(a) and all((a[j] * b[i] - a[i] * b[j]).is_zero() for j in range(len(a)))

# -- numeric angles: a float with an arbitrary value ------------------------------------------------------------------
class Choices:
    """Exhaustive exploration of the outcomes of comparisons on arbitrary floats (demonic)."""
    cur: "Choices | None" = None
    def __init__(self): self.pending = [[]]
    def __iter__(self):
        while self.pending:
            self.prefix = self.pending.pop(); self.pos = 0
            Choices.cur = self
            if len(self.prefix) > 12:
                raise RuntimeError("too many comparisons of an arbitrary angle")
            yield self
        Choices.cur = None
    def choose(self):
        if self.pos == len(self.prefix):
            self.pending.append([*self.prefix, True]); self.prefix = [*self.prefix, False]
        b = self.prefix[self.pos]; self.pos += 1
        return b

class FAng:
    """An arbitrary float angle: arithmetic is tracked symbolically, every comparison may go either way.

    `isinstance` in the code under contract is rebound (`isinst`) so that it counts as a float.
    """
    __array_priority__ = 1000
    def __init__(self, a):
        self.a = a if isinstance(a, Ang) else Ang({}, a)
    @staticmethod
    def _un(o): return o.a if isinstance(o, FAng) else o
    @staticmethod
    def _ok(o): return isinstance(o, FAng) or _num(o)
    def _wrap(self, r): return r if isinstance(r.const, complex) or any(isinstance(c, complex) for c in r.terms.values()) else FAng(r)
    def __add__(self, o): return self._wrap(self.a + self._un(o)) if self._ok(o) else NotImplemented
    __radd__ = __add__
    def __neg__(self): return FAng(self.a * -1)
    def __pos__(self): return self
    def __sub__(self, o): return FAng(self.a + (-1) * self._un(o)) if self._ok(o) else NotImplemented
    def __rsub__(self, o): return FAng(self.a * -1 + o)
    def __mul__(self, o): return self._wrap(self.a * o) if _num(o) else NotImplemented
    __rmul__ = __mul__
    def __truediv__(self, o): return FAng(self.a * (1 / o)) if _num(o) else NotImplemented
    def _cmp(self, o): return Choices.cur.choose()
    __lt__ = __le__ = __gt__ = __ge__ = _cmp
    def __eq__(self, o): return True if self is o else Choices.cur.choose()
    def __hash__(self): return 11
    def __bool__(self): return Choices.cur.choose()
    def __mod__(self, o): return modang(self, o)
    def cos(self): return self.a.cos()
    def sin(self): return self.a.sin()
    def exp(self): return self.a.exp()
    def __repr__(self): return f"FAng({self.a})"

def modang(x, m):
    """angle % m: the same angle up to an undetermined multiple of m; invisible when m is a multiple of the period 2."""
    if isinstance(m, (int, float)) and m % 2 == 0:
        return x
    raise TypeError("modulus is not a multiple of the period")

def isinst(x, t):
    if isinstance(x, FAng):
        ts = t if isinstance(t, tuple) else (t,)
        return float in ts or FAng in ts or object in ts or Number in ts
    return isinstance(x, t)
