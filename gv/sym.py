"""Symbolic execution of the real Python source with loop contracts; obligations discharged by z3.

The function under contract is taken from /repo's current source on every run.  What is changed mechanically:
  * decorators (numba) and annotations are dropped,
  * every loop that has a contract is cut: the invariant is asserted on entry, an arbitrary iteration is executed
    from an arbitrary state satisfying it and must re-establish it, and the code after the loop runs from an arbitrary
    state satisfying it at exit (a `break` leaves the loop from the arbitrary iteration),
  * `range`/`prange` and explicitly listed globals (callees replaced by their contracts, `np.zeros`, ...) are rebound.
CPython executes everything else; conditions on symbolic values fork the path (both feasible arms are explored).
"""
from __future__ import annotations
import ast, inspect, itertools, textwrap, time, types
from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any, Callable
from . import boot
from .core import Proof, Unfit, Obl
z3 = boot.z3()

W = 64
INT = False      # True: indices are mathematical integers (no machine arithmetic), used for index-only contracts

class Content:
    """Base of arrays whose contents are functions of the index."""

class PathEnd(BaseException):
    pass

class Infeasible(PathEnd):
    pass

CUR: "Engine | None" = None

class Engine:
    def __init__(self, ob: Proof, func: str, timeout_ms: int = 20000, max_paths: int = 3000):
        self.ob, self.func, self.timeout, self.max_paths = ob, func, timeout_ms, max_paths
        self.mbqi = True; self.limit_s = 240
        self.agg: dict[str, dict] = {}
        self.queries = 0; self.solver_s = 0.0; self.paths = 0; self.covered: set[str] = set()
        self.n = itertools.count()
        self.proved: dict = {}

    # -- path exploration -------------------------------------------------------------------------------------
    def explore(self, harness: Callable[[], None]) -> None:
        global CUR
        pending: list[list[bool]] = [[]]
        t0 = time.time()
        while pending:
            self.prefix = pending.pop()
            self.pos = 0; self.paths += 1
            if self.paths > self.max_paths:
                raise Unfit(f"{self.func}: more than {self.max_paths} paths")
            if time.time() - t0 > self.limit_s:
                raise Unfit(f"{self.func}: path exploration exceeded {self.limit_s} s")
            self.solver = self.make_solver()
            self.pending = pending
            self.n = itertools.count()
            self.hyps = []
            prev, CUR = CUR, self
            try:
                harness()
            except PathEnd:
                pass
            finally:
                CUR = prev

    def make_solver(self):
        s = z3.Solver(); s.set("timeout", self.timeout)
        if not self.mbqi:
            s.set("auto_config", False); s.set("smt.mbqi", False)
        return s

    def fresh(self, base: str) -> str:
        return f"{base}!{next(self.n)}"

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t; self.queries += 1
        return r

    def assume(self, e) -> None:
        if isinstance(e, SBool):
            e = e.e
        if isinstance(e, bool):
            if not e:
                raise Infeasible
            return
        self.solver.add(e)

    def feasible(self) -> bool:
        return self._check() != z3.unsat

    def decide(self, e) -> bool:
        if isinstance(e, SBool):
            e = e.e
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]; self.pos += 1
        else:
            ct = self._check(e)
            if ct == z3.unsat:
                b = False; fork = False
            else:
                cf = self._check(z3.Not(e))
                b = True; fork = cf != z3.unsat
            if fork:
                self.pending.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix[:self.pos] + [b]; self.pos += 1
        self.solver.add(e if b else z3.Not(e))
        return b

    def choose(self) -> bool:
        """Free (demonic) choice."""
        return self.decide(z3.Bool(self.fresh("choice")))

    # -- obligations --------------------------------------------------------------------------------------------
    def prove(self, label: str, e, tactic=None) -> bool:
        a = self.agg.setdefault(label, dict(ok=0, bad=None, unk=None, sec=0.0))
        if isinstance(e, SBool):
            e = e.e
        t = time.time()
        if isinstance(e, bool):
            r = z3.unsat if e else self._check()
            model = None
            if not e and r == z3.sat:
                model = self.solver.model()
        else:
            e = z3.simplify(e)
            key = None
            if not z3.is_true(e):      # a path that was forked later repeats the obligations before the fork
                hyp = list(self.solver.assertions())
                key = (tuple(a.get_id() for a in hyp), e.get_id())
            if key is None or key in self.proved:
                r = z3.unsat
            else:
                self.solver.push(); self.solver.add(z3.Not(e))
                r = self._check()
                model = self.solver.model() if r == z3.sat else None
                if r == z3.unknown:
                    r = self._second_opinion()
                self.solver.pop()
                if r == z3.unsat:
                    self.proved[key] = (hyp, e)      # keeps the terms (and so their identifiers) alive
        a["sec"] += time.time() - t
        if r == z3.unsat:
            a["ok"] += 1
            return True
        if r == z3.sat:
            a["bad"] = a["bad"] or (str(model)[:1500] if model is not None else "refuted")
        else:
            a["unk"] = a["unk"] or str(e)[:300]
        # continue assuming it, so that one failure does not cascade
        if not isinstance(e, bool):
            self.solver.add(e)
        return False

    def _second_opinion(self):
        try:
            cvc5 = boot.cvc5()
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            s = cvc5.Solver(tm) if tm else cvc5.Solver()
            s.setOption("tlimit", str(self.timeout))
            p = cvc5.InputParser(s)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + self.solver.to_smt2(), "vc")
            sm = p.getSymbolManager()
            out = ""
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out += str(c.invoke(s, sm))
            if "unsat" in out:
                return z3.unsat
        except Exception:
            pass
        return z3.unknown

    def cover(self, label: str) -> None:
        """Reachability: at least one path reaches this point with a satisfiable path condition (vacuity guard)."""
        if label not in self.covered and self._check() == z3.sat:
            self.covered.add(label)

    def close(self, covers: list[str] = ()) -> None:
        if not self.agg:
            raise Unfit(f"{self.func}: no obligation generated")
        for c in covers:
            if c not in self.covered:
                raise Unfit(f"{self.func}: vacuous contract, {c} is not reachable")
        bad = [l for l, a in self.agg.items() if a["bad"]]
        if bad and getattr(self, "replay", None):
            msg = self.replay()
            if msg:
                self.ob.check(f"{self.func}: real code on small inputs", False, msg)
            if msg or any(l.startswith(("loop ", "precondition of ")) for l in bad):      # the proof's invariants, not the property's
                for l in bad:
                    self.agg[l]["unk"], self.agg[l]["bad"] = self.agg[l]["bad"], None
        for label, a in self.agg.items():
            st = "refuted" if a["bad"] else ("undecided" if a["unk"] else "discharged")
            self.ob.obls.append(Obl(self.ob.name, f"{self.func}: {label}", st, "z3", round(a["sec"], 3),
                                    a["bad"] or a["unk"], concrete=False))
        st = self.ob.stats
        st[self.func] = dict(paths=self.paths, solver_queries=self.queries, solver_s=round(self.solver_s, 2))

# -- booleans and machine integers ------------------------------------------------------------------------------
class SBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self): return CUR.decide(self.e)
    def __eq__(self, o): return SBool(self.e == _be(o))
    def __ne__(self, o): return SBool(self.e != _be(o))
    def __and__(self, o): return SBool(z3.And(self.e, _be(o)))
    def __or__(self, o): return SBool(z3.Or(self.e, _be(o)))
    def __xor__(self, o): return SBool(z3.Xor(self.e, _be(o)))
    def __invert__(self): return SBool(z3.Not(self.e))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    __hash__ = None

def _be(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool):
        return z3.BoolVal(o)
    raise Unfit(f"boolean expected, got {o!r}")

def band(*xs): return SBool(z3.And([_be(x) for x in xs]))
def bor(*xs): return SBool(z3.Or([_be(x) for x in xs]))
def implies(a, b): return SBool(z3.Implies(_be(a), _be(b)))

class SI:
    """64-bit machine integer (signed), as numba's int64."""
    __slots__ = ("e", "pow")
    def __init__(self, e, pow=None):
        self.e = e
        self.pow = pow        # if the value is 1 << pow: its exponent (SI), so that products become shifts
    @staticmethod
    def of(x):
        if isinstance(x, SI):
            return x
        if isinstance(x, bool) or (isinstance(x, int)):
            return SI(z3.IntVal(int(x)) if INT else z3.BitVecVal(int(x), W))
        if isinstance(x, SBool):
            one = SI.of(1).e
            return SI(z3.If(x.e, one, SI.of(0).e))
        raise Unfit(f"integer expected, got {x!r}")
    def _b(op):
        def f(self, o):
            if not isinstance(o, (SI, int, SBool)):
                return NotImplemented
            return SI(op(self.e, SI.of(o).e))
        return f
    def _rb(op):
        def f(self, o):
            if not isinstance(o, (SI, int, SBool)):
                return NotImplemented
            return SI(op(SI.of(o).e, self.e))
        return f
    __add__ = __radd__ = _b(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _rb(lambda a, b: a - b)
    __and__ = __rand__ = _b(lambda a, b: a & b)
    __or__ = __ror__ = _b(lambda a, b: a | b)
    __xor__ = __rxor__ = _b(lambda a, b: a ^ b)
    __rrshift__ = _rb(lambda a, b: a >> b)
    def __mul__(self, o):
        if not isinstance(o, (SI, int)):
            return NotImplemented
        o = SI.of(o)
        if self.pow is not None and o.pow is not None:
            return SI(z3.BitVecVal(1, W) << (self.pow.e + o.pow.e), self.pow + o.pow)
        if self.pow is not None:
            return SI(o.e << self.pow.e)
        if o.pow is not None:
            return SI(self.e << o.pow.e)
        return SI(self.e * o.e)
    __rmul__ = __mul__
    def __lshift__(self, o): return SI(self.e << SI.of(o).e)
    def __rlshift__(self, o):
        CUR.prove("shift amount in range", band(self >= 0, self < W - 1))
        if o == 1:
            return SI(z3.BitVecVal(1, W) << self.e, self)
        return SI(SI.of(o).e << self.e)
    def __rshift__(self, o):
        o = SI.of(o)
        if self.pow is not None:
            k = self.pow - o
            if CUR.decide((k >= 0).e):
                return SI(z3.BitVecVal(1, W) << k.e, k)
            return SI(z3.BitVecVal(0, W))
        return SI(self.e >> o.e)
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Unfit("division of symbolic integers")
    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        raise Unfit("modulo of symbolic integers")
    def __neg__(self): return SI(-self.e)
    def __invert__(self): return SI(~self.e)
    def __pos__(self): return self
    def __rpow__(self, o):
        if o == 2:
            return self.__rlshift__(1)
        raise Unfit("power of symbolic integers")
    def _c(op):
        def f(self, o):
            if not isinstance(o, (SI, int)):
                return NotImplemented
            return SBool(op(self.e, SI.of(o).e))
        return f
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)
    def __eq__(self, o):
        if not isinstance(o, (SI, int)):
            return NotImplemented
        return SBool(self.e == SI.of(o).e)
    def __ne__(self, o):
        if not isinstance(o, (SI, int)):
            return NotImplemented
        return SBool(self.e != SI.of(o).e)
    __hash__ = None
    def __bool__(self): return CUR.decide(self.e != 0)
    def __index__(self): raise Unfit("a symbolic integer is used where a concrete one is needed")
    __int__ = lambda self: self
    def __repr__(self): return f"SI({z3.simplify(self.e)})"

def bvar(name): return SI(z3.Int(CUR.fresh(name)) if INT else z3.BitVec(CUR.fresh(name), W))

# -- values: commutative polynomials over atoms ------------------------------------------------------------------
@dataclass(frozen=True)
class Atom:
    """A scalar unknown: constant (idx = ()) or cell of an initial array / partial sum (idx = z3 terms)."""
    name: str
    idx: tuple = ()
    conj: bool = False
    def key(self): return (self.name, self.conj, tuple(i.get_id() if hasattr(i, "get_id") else i for i in self.idx))
    def __eq__(self, o): return isinstance(o, Atom) and self.key() == o.key()
    def __hash__(self): return hash((self.name, self.conj, len(self.idx)))
    def __lt__(self, o): return (self.name, self.conj, str(self.idx)) < (o.name, o.conj, str(o.idx))

class SV:
    """Element of the free commutative *-ring over atoms (floating point arithmetic taken as exact)."""
    __slots__ = ("d",)
    __array_priority__ = 1000
    def __init__(self, d=None): self.d = {k: v for k, v in (d or {}).items() if abs(v) > 1e-12}
    @staticmethod
    def atom(name, *idx): return SV({(Atom(name, tuple(SI.of(i).e for i in idx)),): 1})
    @staticmethod
    def of(x):
        if isinstance(x, SV):
            return x
        if isinstance(x, (int, float, complex)) or hasattr(x, "dtype"):
            return SV({(): complex(x)})
        raise Unfit(f"number expected, got {type(x).__name__}")
    def __add__(self, o):
        o = SV.of(o); r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return SV(r)
    __radd__ = __add__
    def __neg__(self): return SV({k: -v for k, v in self.d.items()})
    def __sub__(self, o): return self + (-SV.of(o))
    def __rsub__(self, o): return SV.of(o) - self
    def __mul__(self, o):
        o = SV.of(o); r = {}
        for k1, v1 in self.d.items():
            for k2, v2 in o.d.items():
                k = tuple(sorted(k1 + k2))
                r[k] = r.get(k, 0) + v1 * v2
        return SV(r)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, (int, float, complex)):
            return self * (1 / o)
        raise Unfit("division by a symbolic value")
    def conjugate(self):
        return SV({tuple(sorted(Atom(a.name, a.idx, not a.conj) for a in k)): complex(v).conjugate() for k, v in self.d.items()})
    conj = conjugate
    @property
    def real(self): return (self + self.conjugate()) * 0.5
    @property
    def imag(self): return (self - self.conjugate()) * -0.5j
    def __eq__(self, o): raise Unfit("comparison of symbolic amplitudes")
    __hash__ = None
    def __repr__(self): return " + ".join(f"{v}*{[(a.name, a.conj, a.idx) for a in k]}" for k, v in self.d.items()) or "0"

def sv_equal(a, b):
    """z3 formula: a == b in the ring, as linear combinations of cells grouped by constant factors."""
    d = SV.of(a) - SV.of(b)
    groups: dict[tuple, list] = {}
    for k, v in d.d.items():
        consts = tuple(x for x in k if not x.idx)
        cells = tuple(x for x in k if x.idx)
        groups.setdefault((consts, tuple((c.name, c.conj) for c in cells)), []).append((cells, v))
    conds = []
    # a group with different cell names cannot cancel against another one, except through zero sums
    for (consts, names), items in groups.items():
        if not names:
            if any(abs(v) > 1e-9 for _, v in items):
                return z3.BoolVal(False)
            continue
        ar = sum(len(c.idx) for c in items[0][0])
        f = z3.Function("cell_" + "_".join(n + ("c" if cj else "") for n, cj in names), *([z3.BitVecSort(W)] * ar), z3.RealSort())
        for part in ("real", "imag"):
            terms = []
            for cells, v in items:
                co = getattr(complex(v), part)
                if abs(co) > 1e-12:
                    fr = Fraction(co).limit_denominator(10 ** 9)
                    terms.append(z3.RealVal(str(fr)) * f(*[i for c in cells for i in c.idx]))
            if terms:
                conds.append(z3.Sum(terms) == 0)
    return z3.And(conds) if conds else z3.BoolVal(True)

class SArr(Content):
    """One-dimensional array of unknown contents; `owner` is set inside parallel iterations."""
    def __init__(self, name, size, content=None):
        self.name, self.size = name, size
        self.content = content or (lambda x: SV.atom(name, x))
        self.owner = None
        self.frozen = False
    def _idx(self, i):
        i = SI.of(i)
        CUR.prove("array index in bounds", band(i >= 0, i < self.size))
        if self.owner is not None:
            own, me = self.owner
            CUR.prove("parallel iterations touch disjoint cells", own(i) == me)
        return i
    def __getitem__(self, i): return self.content(self._idx(i))
    def __setitem__(self, i, v):
        if self.frozen:
            CUR.prove(f"{self.name} is not modified", False)
        i = self._idx(i); old = self.content; v = SV.of(v)
        self.content = lambda x: v if CUR.decide((x == i).e) else old(x)
    def snapshot(self): return self.content
    def __len__(self): raise Unfit("len of a symbolic array")
    @property
    def shape(self): return (self.size,)

class SMat:
    """Small matrix of constant atoms (e.g. a 2x2 operator)."""
    def __init__(self, name, shape): self.name, self.shape = name, shape
    def __getitem__(self, ij):
        i, j = ij
        if not (isinstance(i, int) and isinstance(j, int) and 0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
            raise Unfit(f"operator entry {ij}")
        return SV.atom(f"{self.name}[{i},{j}]")
    def __setitem__(self, ij, v): CUR.prove(f"operator {self.name} is not modified", False)

# -- loop cutting -----------------------------------------------------------------------------------------------
class Undef:
    def __init__(self, name): self.__dict__["_n"] = name
    def _no(self, *a, **k): raise Unfit(f"local {self._n!r} has no value given by the loop contract")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __bool__ = _no
    __and__ = __or__ = __xor__ = __getitem__ = __setitem__ = __iter__ = __call__ = __index__ = __ne__ = __rxor__ = _no
    __lshift__ = __rlshift__ = __rshift__ = __neg__ = __len__ = __contains__ = _no
    def __getattr__(self, a): raise Unfit(f"local {self._n!r} has no value given by the loop contract")
    __hash__ = None

class SRange:
    def __init__(self, *a, parallel=False):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        self.parallel = parallel
    def concrete(self):
        return all(isinstance(x, int) for x in (self.start, self.stop, self.step))
    def __iter__(self):
        if self.concrete():
            return iter(range(self.start, self.stop, self.step))
        raise Unfit("iteration over a symbolic range without a loop contract")

@dataclass
class Loop:
    """Contract of a loop.

    state(env, i) -> {name: value} gives the value of every live modified scalar at the start of iteration i (and at
    exit for i = stop); for array names the value is a content function.  env is the dictionary of locals at loop entry.
    inv(env, i, locals) -> [(label, formula)] is an additional relational invariant.
    """
    state: Callable[[dict, Any], dict] | None = None
    inv: Callable[[dict, Any, dict], list] | None = None
    havoc: Callable[[dict, Any, dict], dict] | None = None      # fresh values for relational invariants
    owner: Callable[[Any], Any] | None = None                   # cell -> owning iteration, for parallel loops
    arrays: tuple[str, ...] = ()
    inline: bool = False
    auto: bool = True
    exit_assume: Callable[[dict, dict], list] | None = None
    body_ghost: Callable[[dict, Any, dict], None] | None = None
    # accumulators: name -> (term(env, i), total(env)): every iteration adds exactly term; total is by definition the sum
    # of the terms over the range of the loop (the order of the additions is irrelevant: exact arithmetic)
    acc: Callable[[dict], dict] | None = None

class VC:
    """Runtime of the instrumented function."""
    def __init__(self, eng: Engine, loops: dict, func: str):
        self.eng, self.loops, self.func = eng, loops, func
        self.entry: dict[int, dict] = {}
        self.cur: dict[int, Any] = {}
        self.outer: list = []
        self.chosen: dict[int, Loop] = {}
        self.induct: dict[int, list] = {}
        self.g: dict = {}

    def _get(self, k, it=None, env=None):
        if k in self.chosen:
            return self.chosen[k]
        lc = self.loops(k, it, env, len(self.cur)) if callable(self.loops) else self.loops.get(k)
        return lc

    def contract(self, k):
        lc = self._get(k)
        if lc is None:
            raise Unfit(f"{self.func}: loop {k} has no contract (the loop structure changed)")
        return lc

    def cut(self, k, it, env):
        """Should loop k be cut (True) or executed as it is?"""
        self.chosen.pop(k, None)
        lc = self._get(k, it, env)
        if lc is not None:
            self.chosen[k] = lc
        if lc is None or lc.inline:
            if isinstance(it, SRange) and not it.concrete():
                raise Unfit(f"{self.func}: loop {k} has no contract (the loop structure changed)")
            return False
        return True

    def _state(self, k, e, i):
        lc = self.contract(k)
        st = {n: f(i) for n, f in e.get("induct", {}).items()}
        if lc.state:
            st.update(lc.state(e, i))
        return st

    def _compare(self, k, where, st, env_now):
        for name, val in st.items():
            if name not in env_now:
                raise Unfit(f"{self.func}: loop {k}: no local {name!r}")
            cur = env_now[name]
            lab = f"loop {k}: {name} {where}"
            if isinstance(cur, SArr):
                x = bvar("x")
                self.eng.assume(band(x >= 0, x < cur.size))
                snap = cur.content
                self.eng.prove(lab, sv_equal(snap(x), val(x)))
            elif isinstance(cur, Content):
                cur.compare(self.eng, lab, val)
            elif isinstance(val, SV) or isinstance(cur, SV):
                self.eng.prove(lab, sv_equal(SV.of(cur), SV.of(val)))
            else:
                self.eng.prove(lab, SI.of(cur) == SI.of(val))

    def _set(self, k, st, env_now, names):
        out = {}
        for n in names:
            if n in st and not callable(st[n]):
                out[n] = st[n]
            else:
                out[n] = Undef(n)
        for n, val in st.items():
            if callable(val):
                env_now[n].content = val
            elif n not in names:
                raise Unfit(f"{self.func}: loop {k}: {n!r} is not assigned in the loop")
        return out

    def enter(self, k, it, env):
        lc = self.contract(k)
        e = dict(env)
        for n in list(e):
            if isinstance(e[n], Content):
                e["old:" + n] = e[n].content
        e["outer"] = dict(self.cur)
        self.entry[k] = e
        if it is not None and not isinstance(it, SRange):
            raise Unfit(f"{self.func}: loop {k} does not iterate over a range")
        e["it"] = it
        start = it.start if it is not None else 0
        # linear induction variables:  v += d  once per iteration, d not modified in the loop
        e["induct"] = {}
        if lc.auto and (it is None or it.step == 1):
            for name, sgn, code in self.induct.get(k, []):
                if name in env and isinstance(env[name], (SI, int)):
                    try:
                        d = eval(code, self.g, dict(env))
                        SI.of(d)
                    except Unfit:
                        continue
                    v0 = SI.of(env[name])
                    e["induct"][name] = lambda i, v0=v0, d=d, sgn=sgn, st=start: (v0 + (SI.of(i) - st) * d) if sgn > 0 else (v0 - (SI.of(i) - st) * d)
        if lc.state:
            self._compare(k, "at entry", self._state(k, e, start), env)
        if lc.inv:
            for lab, f in lc.inv(e, start, env):
                self.eng.prove(f"loop {k}: {lab} at entry", f)

    def begin(self, k, env, names):
        """True: arbitrary iteration, False: exit.  Returns (flag, values for names, loop index)."""
        lc = self.contract(k); e = self.entry[k]; it = e["it"]
        body = self.eng.choose()
        if it is not None:
            if it.step != 1 and it.step != -1:
                raise Unfit("range step")
            i = bvar(f"i{k}")
            lo, hi = (it.start, it.stop) if it.step == 1 else (it.stop, it.start)
            if body:
                self.eng.assume(band(i >= lo, i < hi) if it.step == 1 else band(i > lo, i <= hi))
            else:
                # exit index: stop if the range is non-empty, start otherwise
                lt = (SI.of(it.start) < it.stop) if it.step == 1 else (SI.of(it.start) > it.stop)
                i = it.stop if self.eng.decide(lt) else it.start
        else:
            i = bvar(f"i{k}")
            self.eng.assume(band(i >= 0, i <= 1 << 50))
        vals = {}
        if lc.state:
            vals = self._set(k, self._state(k, e, i), env, names)
        else:
            vals = {n: Undef(n) for n in names}
        if lc.acc:
            e["acc"] = {}
            for n, (term, total) in lc.acc(e).items():
                if n not in names: raise Unfit(f"{self.func}: loop {k}: {n!r} is not accumulated in the loop")
                if body: vals[n] = e["acc"][n] = SV.atom(self.eng.fresh("acc_" + n))
                else: vals[n] = SV.of(env[n]) + total(e)
        if lc.havoc:
            for n, v in lc.havoc(e, i, env).items():
                if n in names:
                    vals[n] = v
        if lc.inv:
            now = dict(env); now.update(vals)
            for lab, f in lc.inv(e, i, now):
                self.eng.assume(f)
        if not body and lc.exit_assume:
            for f in lc.exit_assume(e, {**env, **vals}):
                self.eng.assume(f)
        if not self.eng.feasible():
            raise Infeasible
        if body:
            self.cur[k] = i
            self.eng.cover(f"{self.func}: body of loop {k}")
            if it is not None and it.parallel and lc.owner:
                for n in lc.arrays:
                    self.outer.append((env[n], env[n].owner)); env[n].owner = (lc.owner(e), i)
            if lc.body_ghost:
                lc.body_ghost(e, i, {**env, **vals})
        return body, tuple(vals[n] for n in names), (it.item(i) if body and hasattr(it, "item") else i)

    def assume_cond(self, c, val):
        if isinstance(c, SBool):
            self.eng.assume(c if val else ~c)
            if not self.eng.feasible():
                raise Infeasible
        elif isinstance(c, SI):
            self.assume_cond(c != 0, val)
        elif bool(c) != val:
            raise Infeasible

    def end(self, k, env):
        lc = self.contract(k); e = self.entry[k]; it = e["it"]
        while self.outer:
            a, o = self.outer.pop(); a.owner = o
        i = self.cur[k]
        nxt = i + (it.step if it is not None else 1)
        if lc.acc:
            for n, (term, total) in lc.acc(e).items():
                self.eng.prove(f"loop {k}: {n} grows by the summand", sv_equal(SV.of(env[n]) - e["acc"][n], term(e, i)))
        if lc.state:
            self._compare(k, "preserved", self._state(k, e, nxt), env)
        if lc.inv:
            for lab, f in lc.inv(e, nxt, env):
                self.eng.prove(f"loop {k}: {lab} preserved", f)
        raise PathEnd

class _Cut(ast.NodeTransformer):
    def __init__(self):
        self.k = -1
        self.info = []
        self.induct = {}
    def _induction(self, k, body):
        stores = {}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stores[n.id] = stores.get(n.id, 0) + 1
        out = []
        for st in body:
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)) and stores[st.target.id] == 1:
                used = {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)}
                if not used & set(stores):
                    out.append((st.target.id, 1 if isinstance(st.op, ast.Add) else -1,
                                compile(ast.Expression(self._copy(st.value)), "<step>", "eval")))
        self.induct[k] = out
    def _names(self, body):
        names = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
        return sorted(n for n in names if not n.startswith("__vc"))
    def visit_FunctionDef(self, node):
        return node
    def visit_Lambda(self, node):
        return node
    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out
    def visit_For(self, node):
        self.k += 1; k = self.k
        tgt = self._names([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        names = sorted(set(self._names(node.body)) | set(tgt))
        self.info.append((k, node.lineno, names))
        self._induction(k, node.body)
        body = self._block(node.body); orelse = self._block(node.orelse)
        plain = ast.For(target=node.target, iter=ast.Name("__vc_it", ast.Load()), body=[self._copy(b) for b in body], orelse=[self._copy(b) for b in orelse])
        tpl = f"""
__vc_it = None
if __vc.cut({k}, __vc_it, dict(locals())):
    __vc.enter({k}, __vc_it, dict(locals()))
    (__vc_b{k}, __vc_v, __vc_i{k}) = __vc.begin({k}, dict(locals()), {tuple(names)!r})
    ({''.join(n + ', ' for n in names)}) = __vc_v
    if __vc_b{k}:
        for __vc_x in (__vc_i{k},):
            pass
        else:
            __vc.end({k}, dict(locals()))
    else:
        pass
else:
    pass
"""
        mod = ast.parse(tpl)
        mod.body[0].value = node.iter
        iff = mod.body[1]
        inner = iff.body[-1]
        inner.body[0].target = node.target
        inner.body[0].body = body
        inner.orelse = [*orelse, ast.Pass()]
        iff.orelse = [plain]
        return mod.body
    def visit_While(self, node):
        self.k += 1; k = self.k
        names = self._names(node.body)
        self.info.append((k, node.lineno, names))
        self._induction(k, node.body)
        body = self._block(node.body); orelse = self._block(node.orelse)
        tpl = f"""
if __vc.cut({k}, None, dict(locals())):
    __vc.enter({k}, None, dict(locals()))
    (__vc_b{k}, __vc_v, __vc_i{k}) = __vc.begin({k}, dict(locals()), {tuple(names)!r})
    ({''.join(n + ', ' for n in names)}) = __vc_v
    if __vc_b{k}:
        __vc.assume_cond(0, True)
        for __vc_x in (0,):
            pass
        else:
            __vc.end({k}, dict(locals()))
    else:
        __vc.assume_cond(0, False)
else:
    pass
"""
        mod = ast.parse(tpl)
        iff = mod.body[0]
        inner = iff.body[-1]
        inner.body[0].value.args[0] = self._copy(node.test)
        inner.body[1].body = body
        inner.orelse[0].value.args[0] = self._copy(node.test)
        inner.orelse += orelse
        iff.orelse = [ast.While(test=node.test, body=[self._copy(b) for b in body], orelse=[self._copy(b) for b in orelse])]
        return mod.body
    @staticmethod
    def _copy(n):
        import copy
        return copy.deepcopy(n)

def raw(fn):
    """Python function behind a numba dispatcher / staticmethod / property."""
    fn = getattr(fn, "py_func", fn)
    if isinstance(fn, (staticmethod, classmethod)):
        fn = fn.__func__
    if isinstance(fn, property):
        fn = fn.fget
    return inspect.unwrap(fn)

def source_of(fn):
    fn = raw(fn)
    try:
        return textwrap.dedent(inspect.getsource(fn))
    except (OSError, TypeError) as e:
        raise Unfit(f"no source for {fn!r}: {e}") from None

def instrument(eng: Engine, fn, loops: dict[int, Loop], overrides: dict[str, Any] | None = None, label: str | None = None,
               expect_loops: int | None = None):
    """The real function, instrumented; returns a callable."""
    fn = raw(fn)
    label = label or fn.__name__
    tree = ast.parse(source_of(fn))
    fd = tree.body[0]
    if not isinstance(fd, ast.FunctionDef):
        raise Unfit(f"{label} is not a plain function")
    fd.decorator_list = []
    fd.returns = None
    for a in [*fd.args.args, *fd.args.kwonlyargs, *fd.args.posonlyargs]:
        a.annotation = None
    cut = _Cut()
    fd.body = cut._block(fd.body)
    n = cut.k + 1
    if expect_loops is not None and n != expect_loops:
        raise Unfit(f"{label} has {n} loops, the contract is for {expect_loops}")
    ast.fix_missing_locations(tree)
    code = compile(tree, f"<{label} instrumented>", "exec")
    g = dict(fn.__globals__)
    g["range"] = SRange
    g["bool"] = sym_bool
    g["abs"] = sym_abs
    if "nb" in g:
        g["nb"] = types.SimpleNamespace(prange=lambda *a: SRange(*a, parallel=True))
    g.update(overrides or {})
    vc = VC(eng, loops, label)
    vc.induct, vc.g = cut.induct, g
    g["__vc"] = vc
    ns: dict[str, Any] = {}
    # closures: rebuild free variables as globals
    if fn.__closure__:
        for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            try:
                g.setdefault(name, cell.cell_contents)
            except ValueError:
                pass
    exec(code, g, ns)
    out = ns[fd.name]
    out.__vc_loops__ = cut.info
    return out

def sym_bool(x=False):
    if isinstance(x, (SI,)):
        return x != 0
    if isinstance(x, SBool):
        return x
    return bool(x)

def sym_abs(x):
    return abs(x)
