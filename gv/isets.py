"""Arbitrary sets, maps and sequences of integer node labels, for lifted code (gv.cutloop) whose results depend on label values.

Hypotheses and goals are first-order formulas over the integers with quantifiers (z3 with quantifier instantiation)."""
from __future__ import annotations
import itertools
from . import boot, cutloop as CL, fsets as F, sym
from .core import Unfit
from .cutloop import ZI
from .fsets import cur
from .sym import Engine, Infeasible, SBool
z3 = boot.z3()
Int, B = z3.IntSort(), z3.BoolSort()

class IEngine(CL.CEngine):
    def make_solver(self):
        s = z3.Solver(); s.set("timeout", self.timeout); return s
    def quickly(self, f, *a):
        """reachability questions may stay open (the path is then explored)"""
        self.solver.set("timeout", 400)
        try: return f(*a)
        finally: self.solver.set("timeout", self.timeout)
    def feasible(self): return self.quickly(super().feasible)
    def decide(self, e): return self.quickly(super().decide, e)
    def forall(self, sorts, f): raise Unfit("label sort")
    def all(self, f):
        xs = [z3.Int(self.fresh("x")) for _ in range(f.__code__.co_argcount - len(f.__defaults__ or ()))]; self.assume(z3.ForAll(xs, f(*xs)))
    def full_state(self): return super().full_state() + [(s, s.ver) for s in self.isets]
    def int(self, n): return z3.Int(self.fresh(n))
    def const(self, n): return ZI(self.int(n))
    def pred(self, n):
        p = z3.Function(self.fresh(n), Int, B); return lambda x: p(x)
    def fun(self, n):
        p = z3.Function(self.fresh(n), Int, Int); return lambda x: p(x)
    def explore(self, harness, whiles=None):
        def h(): self.isets = []; harness()
        super().explore(h, whiles)
    def fork(self, yes, no):
        b = self.choose(); (yes if b else no)()
        if not self.feasible(): raise Infeasible
        return b
    def prove_all(self, label, f):
        xs = [z3.Int(self.fresh("any")) for _ in range(f.__code__.co_argcount - len(f.__defaults__ or ()))]; return self.prove(label, f(*xs))

def attempt(ob, label, harness, whiles=None):
    eng = IEngine(ob, label); eng.pick = {}; eng.explore(lambda: harness(eng), whiles); return eng

def term(x): return ZI.of(x)
def formula(cond):
    """the predicate of a condition on one integer"""
    y = z3.Int(cur().fresh("y")); errs = []; f = cur().formula(lambda: cond(ZI(y)), errs)
    if errs: raise Unfit("a condition that may fail")
    return lambda x: z3.substitute(f, (y, x))

def as_set(o):
    if isinstance(o, ISet): return o
    if isinstance(o, IMap): return o.keys()
    if isinstance(o, ISeq): return o.as_set()
    if isinstance(o, (set, frozenset, list, tuple)):
        ts = [term(x) for x in o]; return ISet(lambda x: z3.Or(*[x == t for t in ts]) if ts else z3.BoolVal(False))
    raise Unfit(f"set expected, got {type(o).__name__}")

class ISet:
    gv_kind = "iset"
    def __init__(self, mem, tag=None): self.mem, self.tag, self.ver = mem, tag, 0; cur().isets.append(self)
    def __contains__(self, x): return cur().decide(self.mem(term(x)))
    def gv_in(self, x): return SBool(self.mem(term(x)))
    def __bool__(self):
        eng = cur()
        def yes(): w = eng.int("member"); eng.assume(self.mem(w))
        return eng.fork(yes, lambda: eng.all(lambda x: z3.Not(self.mem(x))))
    def __le__(self, o):
        eng = cur(); m = as_set(o).mem
        def no(): w = eng.int("odd"); eng.assume(z3.And(self.mem(w), z3.Not(m(w))))
        return eng.fork(lambda: eng.all(lambda x: z3.Implies(self.mem(x), m(x))), no)
    def issubset(self, o): return self <= o
    def __ge__(self, o): return as_set(o) <= self
    def isdisjoint(self, o): return not self & as_set(o)
    def __and__(self, o): m, n = self.mem, as_set(o).mem; return ISet(lambda x: z3.And(m(x), n(x)))
    def __or__(self, o): m, n = self.mem, as_set(o).mem; return ISet(lambda x: z3.Or(m(x), n(x)))
    def __sub__(self, o): m, n = self.mem, as_set(o).mem; return ISet(lambda x: z3.And(m(x), z3.Not(n(x))))
    __rand__, __ror__ = __and__, __or__
    def __rsub__(self, o): return as_set(o) - self
    def intersection(self, *os):
        r = self
        for o in os: r = r & as_set(o)
        return r
    def union(self, *os):
        r = self
        for o in os: r = r | as_set(o)
        return r
    def difference(self, *os):
        r = self
        for o in os: r = r - as_set(o)
        return r
    def copy(self): return ISet(self.mem)
    def update(self, *os): self.mem = self.union(*os).mem; self.tag = None; self.ver += 1
    def add(self, x): m, t = self.mem, term(x); self.mem = lambda y: z3.Or(m(y), y == t); self.tag = None; self.ver += 1
    def gv_filter(self, kind, cond): f = formula(cond); m = self.mem; return ISet(lambda x: z3.And(m(x), f(x)))
    def gv_len(self): return Card(self)
    def _no(self, *a): raise Unfit("operation on a set of labels")
    __iter__ = __len__ = __eq__ = __lt__ = __gt__ = __xor__ = _no
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"set operation {a}")

class IMap:
    """A map from labels to labels (wrap: from terms to the values of the map)."""
    gv_kind = "map"
    def __init__(self, dom, val, mutable=False, wrap=ZI, unwrap=ZI.of):
        self.dom, self.val, self.mutable, self.ver, self.wrap, self.unwrap = dom, val, mutable, 0, wrap, unwrap
        if mutable: cur().maps.append(self)
    def copy(self): return IMap(self.dom, self.val, True, self.wrap, self.unwrap)
    def __contains__(self, k): return cur().decide(self.dom(term(k)))
    def gv_in(self, k): return SBool(self.dom(term(k)))
    def __getitem__(self, k):
        if not cur().decide(self.dom(term(k))): raise KeyError("label")
        return self.wrap(self.val(term(k)))
    def get(self, k, d=None): return self.wrap(self.val(term(k))) if cur().decide(self.dom(term(k))) else d
    def __setitem__(self, k, v):
        if not self.mutable: raise Unfit("an argument is changed")
        d, f, t, u = self.dom, self.val, term(k), self.unwrap(v)
        self.dom = lambda x: z3.Or(x == t, d(x)); self.val = lambda x: z3.If(x == t, u, f(x)); self.ver += 1
    def update(self, o):
        if not self.mutable or not isinstance(o, IMap): raise Unfit("update")
        d, f, e, g = self.dom, self.val, o.dom, o.val
        self.dom = lambda x: z3.Or(e(x), d(x)); self.val = lambda x: z3.If(e(x), g(x), f(x)); self.ver += 1
    def keys(self): d = self.dom; return ISet(lambda x: d(x))
    def values(self):
        d, f = self.dom, self.val
        def mem(v): k = z3.Int(cur().fresh("k")); return z3.Exists([k], z3.And(d(k), f(k) == v))
        return ISet(mem, ("values", self, self.ver))
    def items(self): return IItems(self)
    def gv_filter(self, kind, cond): return self.keys().gv_filter(kind, cond)
    def gv_len(self): return Card(self)
    def __bool__(self): return bool(self.keys())
    def _no(self, *a): raise Unfit("operation on a map of labels")
    __iter__ = __len__ = __eq__ = __or__ = _no
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"map operation {a}")
class IItems:
    def __init__(self, m): self.m = m
    def __iter__(self): raise Unfit("iteration outside a loop")
    def __getattr__(self, a): raise Unfit(f"operation on items: {a}")

class Card:
    """a number of elements"""
    def __init__(self, of): self.of = of
    def __eq__(self, o):
        a, b = self.of, o.of if isinstance(o, Card) else o
        if isinstance(a, ISet) and isinstance(b, IMap): a, b = b, a
        eng = cur()
        if isinstance(a, IMap) and isinstance(b, ISet) and b.tag == ("values", a, a.ver):
            def no():
                x, y = eng.int("first"), eng.int("second"); eng.assume(z3.And(a.dom(x), a.dom(y), x != y, a.val(x) == a.val(y)))
            return eng.fork(lambda: eng.all(lambda x, y: z3.Implies(z3.And(a.dom(x), a.dom(y), a.val(x) == a.val(y)), x == y)), no)
        if eng.sizes and isinstance(o, Card): return eng.sizes(a, b)
        raise Unfit("comparison of sizes")
    def __ne__(self, o): return not self == o
    __hash__ = None
    def __getattr__(self, a): raise Unfit("a size")

class ISeq:
    """A sequence of distinct labels: segments (base sequence, kept: predicate of the original label, image: function of the original
    label).  Base sequences are opaque; `member(x)`: x occurs in it."""
    def __init__(self, segs): self.segs = list(segs)
    def __add__(self, o):
        if isinstance(o, ISeq): return ISeq([*self.segs, *o.segs])
        return NotImplemented if o else self
    def __radd__(self, o): return NotImplemented if o else self
    def copy(self): return ISeq(self.segs)
    def as_set(self):
        def mem(x):
            out = []
            for b, k, f in self.segs:
                y = z3.Int(cur().fresh("y"))
                if f is None: out.append(z3.And(b.member(x), k(x)))
                else: out.append(z3.Exists([y], z3.And(b.member(y), k(y), f(y) == x)))
            return z3.Or(*out) if out else z3.BoolVal(False)
        return ISet(mem)
    def gv_in(self, x): return self.as_set().gv_in(x)
    def __contains__(self, x): return x in self.as_set()
    def gv_filter(self, kind, cond):
        g = formula(cond)
        if kind == "set": return self.as_set().gv_filter(kind, cond)
        return ISeq([(b, (lambda x, k=k, f=f: z3.And(k(x), g(f(x) if f else x))), f) for b, k, f in self.segs])
    def gv_map(self, kind, cond, fn):
        s = self.gv_filter("list", cond) if cond else self; out = []
        for b, k, f in s.segs:
            y = z3.Int(cur().fresh("e")); im = cur().image(fn, ZI(f(y) if f else y), z3.And(b.member(y), k(y)))
            out.append((b, k, lambda x, y=y, im=im: z3.substitute(im, (y, x))))
        r = ISeq(out)
        return r.as_set() if kind == "set" else r
    def gv_len(self): return Card(self)
    def __bool__(self): return bool(self.as_set())
    def __iter__(self): raise Unfit("iteration over an arbitrary sequence")
    def _no(self, *a): raise Unfit("operation on a sequence of labels")
    __len__ = __getitem__ = __eq__ = _no
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"sequence operation {a}")
class Base:
    def __init__(self, name, member): self.name, self.member = name, member
def seq(name, member): return ISeq([(Base(name, member), lambda x: z3.BoolVal(True), None)])

def image(fn, x, where):
    """the value of fn at an arbitrary x of the sequence, as one term (all paths)"""
    eng = cur(); todo = [[]]; out = []
    if eng.recording is not None: raise Unfit("nested comprehensions")
    while todo:
        if len(out) > 64: raise Unfit("too many cases")
        eng.recording = r = dict(prefix=todo.pop(), pos=0, cond=[], todo=todo)
        try: v = fn(x)
        except (KeyError, IndexError) as e:
            eng.recording = None; eng.prove(f"no {type(e).__name__} is raised", z3.Implies(where, z3.Not(z3.And(*r["cond"])))); continue
        finally: eng.recording = None
        out.append((z3.And(*r["cond"]) if r["cond"] else z3.BoolVal(True), v))
    if not out: raise Unfit("no value")
    e = term(out[-1][1])
    for c, v in out[:-1]: e = z3.If(c, term(v), e)
    return e
IEngine.image = staticmethod(image)
IEngine.sizes = None

def set_(x=()): return ISet(as_set(x).mem, x.tag if isinstance(x, ISet) else None) if isinstance(x, (ISet, IMap, ISeq)) or x else ISet(lambda y: z3.BoolVal(False))
def list_(x=()):
    if isinstance(x, ISeq): return x.copy()
    if not isinstance(x, (ISet, IMap)) and not x: return CL.GList()
    if isinstance(x, (list, tuple)): return list(x)
    raise Unfit("a list")
class _T(type):
    def __instancecheck__(c, o): return isinstance(o, c.kinds)
    def __call__(c, *a, **k): return c.make(*a, **k)
class SetT(metaclass=_T): kinds = (ISet, set); make = staticmethod(set_)
class FrozenT(metaclass=_T): kinds = (ISet, frozenset); make = staticmethod(set_)
class ListT(metaclass=_T): kinds = (ISeq, CL.GList, list); make = staticmethod(list_)
def dict_(x=None):
    if isinstance(x, IMap): return x.copy()
    if x is None or not x: return IMap(lambda k: z3.BoolVal(False), lambda k: z3.IntVal(0), True)
    raise Unfit("a dictionary")
class DictT(metaclass=_T): kinds = (IMap, dict); make = staticmethod(dict_)
def gv_tuple(*parts):
    if any(k == "*" and isinstance(v, (ISet, IMap, ISeq)) for k, v in parts):
        r = ISet(lambda x: z3.BoolVal(False))
        for k, v in parts: r = r | as_set(v if k == "*" else [v])
        return r
    return CL.gv_tuple(*parts)
def max_(x, *r, default=None):
    if r: return max(x, *r)
    if not isinstance(x, (ISet, IMap, ISeq)): raise Unfit("maximum")
    eng = cur(); s = as_set(x); m = eng.int("max")
    eng.all(lambda y: z3.Implies(s.mem(y), y <= m))
    if default is None: eng.assume(s.mem(m)); return ZI(m)
    def no(): eng.all(lambda y: z3.Not(s.mem(y))); eng.assume(m == term(default))
    eng.fork(lambda: eng.assume(s.mem(m)), no)
    return ZI(m)
def map_(f, *xs):
    if f is str and any(isinstance(x, (ISet, IMap, ISeq)) for x in xs): return ["..."]
    if any(isinstance(x, (ISet, IMap, ISeq)) for x in xs):
        if len(xs) == 1 and isinstance(xs[0], ISeq): return xs[0].gv_map("gen", None, f)
        raise Unfit("map")
    return map(f, *xs)
ENV = {"set": SetT, "frozenset": FrozenT, "dict": DictT, "list": ListT, "gv_dict": dict_, "gv_tuple": gv_tuple, "max": max_, "map": map_}
def lift(fn, **env): return CL.lift(fn, **{**ENV, **env})
