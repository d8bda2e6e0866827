"""Arbitrary finite sets, maps and layer sequences of graph nodes (symbolic), and execution of real functions on them.

`lift(fn, **env)` takes the current source of `fn` and runs it with these stand-ins.  Changed mechanically: set and empty
dict displays, filtering comprehensions, `in`, augmented assignments, `.union(*x)`, `set`, `frozenset`, `len` go through
the stand-ins; annotations and decorators are dropped.  Everything else is executed by CPython.  Sets are membership
predicates over an uninterpreted sort; questions such as inclusion or emptiness fork the path, each arm with its
consequence (for all nodes ... / a witness).  Quantified facts are instantiated with the ground terms at hand: a proof is
sound, a refutation may be spurious (so the units downgrade it to undecided).

Loops over arbitrary sets: *generic* mode executes the body on one arbitrary element (and the path after the loop
separately); *guided* mode executes it on given witnesses, then leaves the loop: if the loop is left normally, its body
has completed normally on every element, in particular on these.  Sets and maps must not be changed by such a loop (checked)
unless an invariant is given; locals must not be carried from one iteration to the next or out of the loop (checked on the source).
"""
from __future__ import annotations
import ast, inspect, itertools, textwrap, types, weakref
from typing import Any, Callable
from . import boot, sym
from .core import Unfit
from .exact import isinst
from .extract import raw
from .sym import Engine, Infeasible, PathEnd, SBool
z3 = boot.z3()
Lab = z3.DeclareSort("Label"); I = z3.IntSort(); B = z3.BoolSort()
PROBE = z3.Const("probe", Lab)
DEPTH = {Lab: 1, I: 2}      # nesting of uninterpreted functions in the terms used for instantiation

def args(t, sort): return t.children() if isinstance(sort, z3.FuncDeclRef) else [t]

class Inst:
    """A solver that instantiates quantified facts with the ground terms of its assertions."""
    def __init__(self, timeout, cap=6000):
        self.s = z3.Solver(); self.s.set("timeout", timeout); self.cap = cap
        self.axioms = []; self.terms = {Lab: [], I: []}; self.apps = {}; self.ids = {}; self.depths = {}; self.keep2 = []; self.seen = set(); self.log = []; self.pending = []; self.ptr = []; self.stack = []; self.n = 0; self.keep = []
    def set(self, *a): self.s.set(*a)
    def add(self, *es):
        for e in es:
            self.s.add(e); self.pending.append(e)
    def forall(self, sorts, f):
        """sorts: one sort, a function (for all its occurrences), or a tuple of these; f: the terms (or arguments) -> formula"""
        sorts = sorts if isinstance(sorts, tuple) else (sorts,)
        self.axioms.append((sorts, f)); self.ptr.append((0,) * len(sorts))
    def push(self):
        self.s.push()
        self.stack.append((len(self.axioms), len(self.terms[Lab]), len(self.terms[I]), len(self.log), {k: len(v) for k, v in self.apps.items()}, list(self.pending), list(self.ptr), self.n, len(self.keep)))
    def pop(self):
        a, l, i, g, apps, p, ptr, n, k = self.stack.pop(); self.s.pop()
        for d, v in self.apps.items(): del v[apps.get(d, 0):]
        del self.axioms[a:]
        for so, m in ((Lab, l), (I, i)):
            for t in self.terms[so][m:]: self.ids.pop(t.get_id(), None)
            del self.terms[so][m:]
        for x in self.log[g:]: self.seen.discard(x)
        del self.log[g:]; del self.keep[k:]
        self.pending, self.ptr, self.n = p, ptr, n
    def _walk(self, e):
        st = [e]; seen = self.seen
        while st:
            x = st.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k); self.log.append(k); self.keep.append(x)
            if not z3.is_app(x): continue
            ch = x.children()
            so = x.sort_kind() if hasattr(x, "sort_kind") else x.sort().kind()
            unint = x.decl().kind() == z3.Z3_OP_UNINTERPRETED
            if so == z3.Z3_UNINTERPRETED_SORT:
                if unint: self._term(Lab, x)
            elif so == z3.Z3_INT_SORT:
                if unint: self._term(I, x)
            if ch and unint:
                if all(self._depth(c) <= DEPTH[c.sort()] for c in ch if c.sort() in DEPTH): self.apps.setdefault(x.decl().get_id(), []).append(x)
                for y in ch:
                    if y.sort() == I: self._term(I, y)
            st.extend(ch)
    def _term(self, sort, x):
        ts = self.terms[sort]; k = x.get_id()
        if k not in self.ids and self._depth(x) <= DEPTH[sort]: self.ids[k] = None; ts.append(x)
    def _depth(self, x):
        k = x.get_id(); d = self.depths.get(k)
        if d is None:
            d = (1 if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 0) + max([self._depth(c) for c in x.children() if c.sort() in (Lab, I)], default=0)
            self.depths[k] = d; self.keep2.append(x)
        return d
    def saturate(self):
        for _ in range(4):
            todo, self.pending = self.pending, []
            for e in todo: self._walk(e)
            new = []
            for k, (sorts, f) in enumerate(self.axioms):
                done = self.ptr[k]; pools = [self.apps.setdefault(s.get_id(), []) if isinstance(s, z3.FuncDeclRef) else self.terms[s] for s in sorts]; have = tuple(map(len, pools))
                if done == have: continue
                for ix in itertools.product(*map(range, have)):
                    if all(i < d for i, d in zip(ix, done)): continue
                    self.n += 1
                    if self.n > self.cap: raise Unfit("too many instances of the quantified facts")
                    e = z3.simplify(f(*[a for s, p, i in zip(sorts, pools, ix) for a in args(p[i], s)]))
                    if not z3.is_true(e): new.append(e)
                self.ptr[k] = have
            if not new: break
            for e in new: self.s.add(e); self.pending.append(e)
    def check(self, *extra):
        if extra:
            self.push(); self.add(*extra)
            try:
                self.saturate(); return self.s.check()
            finally: self.pop()
        self.saturate(); return self.s.check()
    def model(self): return self.s.model()
    def assertions(self): return self.s.assertions()
    def to_smt2(self): return self.s.to_smt2()

class FEngine(Engine):
    def __init__(self, ob, label, timeout_ms=6000, max_paths=6000, **k):
        super().__init__(ob, label, timeout_ms=timeout_ms, max_paths=max_paths)
        self.recording = None; self.limit_s = 120
    def make_solver(self): return Inst(self.timeout)
    def forall(self, sorts, f): self.solver.forall(sorts, f)
    def prove_exists(self, label, sorts, f):
        """f holds for some terms"""
        self.solver.push(); self.forall(sorts, lambda *t: z3.Not(f(*t)))
        self.prove(label, False)
        self.solver.pop()
    def explore(self, harness, roles=(), order=None):
        def h():
            if any(a["bad"] for a in self.agg.values()): return      # one refutation is enough
            self.roles = list(roles); self.role_order = order; self.dead = []; self.layer_index = None; self.extra = None
            self.guides = None; self.layer_guides = None; self.born = []; self.maps = []; self.iter_hook = None; self.recording = None; self.questions = {}
            harness()
        super().explore(h)
    def close(self, covers=()):
        n0 = len(self.ob.obls); super().close(() if any(a["bad"] for a in self.agg.values()) else covers)      # exploration stops at a refutation
        mine = self.ob.obls[n0:]
        if any("loop invariant" in o.label and o.status != "discharged" for o in mine):      # the invariants do not fit the current code
            for o in mine:
                if o.status == "refuted": o.status = "undecided"
    def label(self, n="v"): return z3.Const(self.fresh(n), Lab)
    def decide(self, e):
        if self.recording is not None:
            e = e.e if isinstance(e, SBool) else e
            if isinstance(e, bool): return e
            e = z3.simplify(e)
            if z3.is_true(e): return True
            if z3.is_false(e): return False
            r = self.recording
            if r["pos"] < len(r["prefix"]): b = r["prefix"][r["pos"]]
            else:
                b = True; r["todo"].append(r["prefix"] + [False]); r["prefix"].append(True)
            r["pos"] += 1; r["cond"].append(e if b else z3.Not(e)); return b
        return super().decide(e)
    def formula(self, fn, err=None):
        """The condition under which fn() is true, as a formula (all its paths); exceptions are listed in err, with their conditions."""
        if self.recording is not None: raise Unfit("nested predicates")
        todo = [[]]; out = []; err = [] if err is None else err
        while todo:
            if len(out) > 200: raise Unfit("predicate with too many paths")
            self.recording = r = dict(prefix=todo.pop(), pos=0, cond=[], todo=todo)
            try: v = fn()
            except Unfit: raise
            except Exception as x:
                err.append((z3.And(*r["cond"]) if r["cond"] else z3.BoolVal(True), x)); continue
            finally: self.recording = None
            e = v.e if isinstance(v, SBool) else z3.BoolVal(bool(v)) if isinstance(v, bool) else None
            if e is None: raise Unfit("predicate value")
            out.append(z3.And(*r["cond"], e))
        return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)
    def ask(self, key, yes, no):
        """Fork on a question that is not a ground formula; `yes`/`no` assume the consequences."""
        if self.recording is not None: raise Unfit("a set question inside a predicate")
        key = key if isinstance(key, str) else (key[0], *[z3.simplify(z3.BoolVal(k) if isinstance(k, bool) else k) for k in key[1:]])
        if not isinstance(key, str):
            kid = (key[0], *[k.get_id() for k in key[1:]])
            if kid in self.questions: return self.questions[kid][0]
        b = self.choose()
        (yes if b else no)()
        if not self.feasible(): raise Infeasible
        if not isinstance(key, str): self.questions[kid] = (b, key)
        return b
    def know(self, kind, b, *fs):
        key = [z3.simplify(f) for f in fs]; self.questions[(kind, *[k.get_id() for k in key])] = (b, key)
    def alive(self): return [s for s in (r() for r in self.born) if s is not None]
    def state(self): return [(s, s.ver) for s in self.alive()] + [(m, m.ver) for m in self.maps]
    def unchanged(self, st, what="loop"):
        for o, v in st:
            if o.ver != v: raise Unfit(f"the {what} changes a set or a map")
    def iterate(self, early, mem, make):
        if self.recording is not None: raise Unfit("iteration inside a predicate")
        st = self.state()
        if (self.guides is None or early) and self.choose():       # an arbitrary element (in guided mode, too, if it could leave the loop early)
            t = self.label("elem"); self.assume(mem(t))
            if not self.feasible(): raise Infeasible
            yield make(t)
            self._after(st, t)
            raise PathEnd
        if self.guides is not None:
            for w in self.guides:
                if self.decide(mem(w)):
                    yield make(w); self._after(st, w)
        if self.iter_hook is not None: self.dead += [m for m in self.maps]
    def _after(self, st, t):
        if self.iter_hook is not None: self.iter_hook(st, t)
        else: self.unchanged(st)

def cur() -> FEngine:
    e = sym.CUR
    if not isinstance(e, FEngine): raise Unfit("no engine")
    return e

class Lbl:
    """An arbitrary node."""
    def __init__(self, e): self.e = e
    def __eq__(self, o): return SBool(self.e == o.e) if isinstance(o, Lbl) else NotImplemented
    def __ne__(self, o): return SBool(self.e != o.e) if isinstance(o, Lbl) else NotImplemented
    def __hash__(self): raise Unfit("a symbolic node is hashed")
    def __repr__(self): return f"node({self.e})"
    def _no(self, *a): raise Unfit("a symbolic node is ordered or converted")
    __lt__ = __le__ = __gt__ = __ge__ = __int__ = __index__ = __bool__ = __add__ = __sub__ = _no

class SEnum:
    """An arbitrary member of a finite list of constants."""
    def __init__(self, e, consts): self.e, self.consts = e, consts       # e: z3 Int, index into consts
    def __eq__(self, o):
        for i, c in enumerate(self.consts):
            if c is o or (type(c) is type(o) and c == o): return SBool(self.e == i)
        if isinstance(o, SEnum): return SBool(self.e == o.e)
        return False
    def __ne__(self, o):
        r = self == o
        return SBool(z3.Not(r.e)) if isinstance(r, SBool) else not r
    def __hash__(self): raise Unfit("a symbolic constant is hashed")
    def is_a(self, t): return SBool(z3.Or(*[self.e == i for i, c in enumerate(self.consts) if isinstance(c, t)]))

def conv(o) -> "FSet":
    if isinstance(o, FSet): return o
    if isinstance(o, FMap): return o.keys()
    if isinstance(o, FSeq): return o.as_set()
    if isinstance(o, (set, frozenset, list, tuple, dict)):
        ls = list(o)
        if not all(isinstance(x, Lbl) for x in ls): raise Unfit("a set of something else")
        return FSet(lambda e, ls=ls: z3.Or(*[e == x.e for x in ls]) if ls else z3.BoolVal(False), False)
    raise Unfit(f"set expected, got {type(o).__name__}")

class FSet:
    def __init__(self, mem, mutable=False, tag=None):
        self.mem, self.mutable, self.tag, self.ver = mem, mutable, tag, 0
        if mutable: cur().born.append(weakref.ref(self))
    # -- questions
    def __contains__(self, x):
        if not isinstance(x, Lbl): raise Unfit(f"membership of {x!r}")
        return cur().decide(self.mem(x.e))
    def contains(self, x):
        if not isinstance(x, Lbl): raise Unfit(f"membership of {x!r}")
        return SBool(self.mem(x.e))
    def __bool__(self):
        eng = cur(); m = self.mem
        if z3.is_false(z3.simplify(m(PROBE))): return False
        def yes(): w = eng.label("some"); eng.assume(m(w))
        return eng.ask(("nonempty", m(PROBE)), yes, lambda: eng.forall(Lab, lambda x: z3.Not(m(x))))
    def issubset(self, o):
        o = conv(o); eng = cur(); a, b = self.mem, o.mem
        def no(): w = eng.label("extra"); eng.assume(z3.And(a(w), z3.Not(b(w))))
        return eng.ask(("subset", a(PROBE), b(PROBE)), lambda: eng.forall(Lab, lambda x: z3.Implies(a(x), b(x))), no)
    def issuperset(self, o): return conv(o).issubset(self)
    def isdisjoint(self, o): return not (self & conv(o))
    def __le__(self, o): return self.issubset(o) if isinstance(o, (FSet, set, frozenset)) else NotImplemented
    def __ge__(self, o): return conv(o).issubset(self) if isinstance(o, (FSet, set, frozenset)) else NotImplemented
    def __eq__(self, o):
        if not isinstance(o, (FSet, set, frozenset)): return False
        o = conv(o); eng = cur(); a, b = self.mem, o.mem
        def no(): w = eng.label("differs"); eng.assume(a(w) != b(w))
        return eng.ask(("equal", a(PROBE), b(PROBE)), lambda: eng.forall(Lab, lambda x: a(x) == b(x)), no)
    def __ne__(self, o): return not self == o
    def __hash__(self): raise Unfit("a symbolic set is hashed")
    def _no(self, *a): raise Unfit("strict comparison of sets")
    __lt__ = __gt__ = _no
    # -- operations
    def _new(self, mem, tag=None): return FSet(mem, self.mutable, tag)
    def union(self, *os):
        ms = [self.mem, *[conv(o).mem for o in os]]; return self._new(lambda x: z3.Or(*[m(x) for m in ms]))
    def intersection(self, *os):
        ms = [self.mem, *[conv(o).mem for o in os]]; return self._new(lambda x: z3.And(*[m(x) for m in ms]))
    def difference(self, *os):
        a = self.mem; ms = [conv(o).mem for o in os]; return self._new(lambda x: z3.And(a(x), *[z3.Not(m(x)) for m in ms]))
    def symmetric_difference(self, o):
        a, b = self.mem, conv(o).mem; return self._new(lambda x: z3.Xor(a(x), b(x)))
    def _op(name):
        def f(self, o): return getattr(self, name)(o) if isinstance(o, (FSet, set, frozenset)) else NotImplemented
        return f
    __or__, __and__, __sub__, __xor__ = _op("union"), _op("intersection"), _op("difference"), _op("symmetric_difference")
    def __rsub__(self, o): return conv(o).difference(self)
    __ror__, __rand__, __rxor__ = __or__, __and__, __xor__
    def copy(self): return FSet(self.mem, True, self.tag)
    # -- changes
    def _set(self, mem):
        if not self.mutable: raise Unfit("a frozen set is changed")
        self.mem = mem; self.ver += 1; self.tag = None
    def add(self, x):
        a = self.mem; self._set(lambda y: z3.Or(a(y), y == x.e))
    def discard(self, x):
        a = self.mem; self._set(lambda y: z3.And(a(y), y != x.e))
    def remove(self, x):
        if not self.__contains__(x): raise KeyError("node")
        self.discard(x)
    def clear(self): self._set(lambda y: z3.BoolVal(False))
    def update(self, *os): self._set(self.union(*os).mem)
    def difference_update(self, *os): self._set(self.difference(*os).mem)
    def intersection_update(self, *os): self._set(self.intersection(*os).mem)
    def symmetric_difference_update(self, o): self._set(self.symmetric_difference(o).mem)
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True): return cur().iterate(early, self.mem, Lbl)
    def __len__(self): raise Unfit("length of a symbolic set")
    def __getattr__(self, a): raise Unfit(f"set operation {a}")

class FSeq:
    """An arbitrary list of nodes (only what a set of it would tell)."""
    def __init__(self, mem): self.mem = mem
    def as_set(self): return FSet(self.mem)
    def __contains__(self, x): return cur().decide(self.mem(x.e))
    def contains(self, x): return SBool(self.mem(x.e))
    def __bool__(self): return bool(FSet(self.mem))
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True): return cur().iterate(early, self.mem, Lbl)
    def __getattr__(self, a): raise Unfit(f"list operation {a}")

class FVals:
    def __init__(self, m): self.m = m
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True): return cur().iterate(early, self.m.dom, self.m.val)
    def bigunion(self):
        eng = cur(); m = self.m; U = z3.Function(eng.fresh("union"), Lab, B); W = z3.Function(eng.fresh("from"), Lab, Lab)
        eng.forall(Lab, lambda x: z3.Implies(U(x), z3.And(m.dom(W(x)), conv(m.val(W(x))).mem(x))))
        eng.forall((Lab, U), lambda u, x: z3.Implies(z3.And(m.dom(u), conv(m.val(u)).mem(x)), U(x)))
        return FSet(lambda x: U(x))

class FItems:
    def __init__(self, m): self.m = m
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True): return cur().iterate(early, self.m.dom, lambda e: (Lbl(e), self.m.val(e)))

class FMap:
    """An arbitrary map from nodes to `val(node)`; entries written later are kept in `w` (newest last)."""
    def __init__(self, dom, val, mutable=False):
        self.dom0, self.val0, self.w, self.ver = dom, val, [], 0
        self.mutable = mutable
        if mutable: cur().maps.append(self)
    def dom(self, e):
        if self.mutable and any(m is self for m in cur().dead): raise Unfit("a map is read after the loop that fills it")
        return z3.Or(self.dom0(e), *[e == k for k, _ in self.w])
    def val(self, e):
        for k, v in reversed(self.w):
            if cur().decide(e == k): return v
        return self.val0(e)
    def __getitem__(self, k):
        if not isinstance(k, Lbl): raise Unfit("key")
        if not cur().decide(self.dom(k.e)): raise KeyError("node")
        return self.val(k.e)
    def get(self, k, d=None):
        if not isinstance(k, Lbl): raise Unfit("key")
        return self.val(k.e) if cur().decide(self.dom(k.e)) else d
    def __contains__(self, k): return cur().decide(self.dom(k.e))
    def contains(self, k): return SBool(self.dom(k.e))
    def __setitem__(self, k, v):
        if not self.mutable: raise Unfit("an argument is changed")
        if not isinstance(k, Lbl): raise Unfit("key")
        self.w = [*self.w, (k.e, v)]; self.ver += 1
    def keys(self): return FSet(self.dom)
    def values(self): return FVals(self)
    def items(self): return FItems(self)
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True): return cur().iterate(early, self.dom, Lbl)
    def __bool__(self): return bool(self.keys())
    def __len__(self): raise Unfit("length of a symbolic map")
    def __getattr__(self, a): raise Unfit(f"map operation {a}")

class Fold:
    """An arbitrary finite collection of nodes over which a loop accumulates a set, from the empty one: step(S, node) -> predicate."""
    def __init__(self, step): self.step, self.final = step, None
    def __iter__(self): raise Unfit("iteration outside a loop")
    def __getattr__(self, a): raise Unfit(f"collection operation {a}")
    def gv_iter(self, early=True):
        eng = cur(); sets = [s for s in eng.alive() if z3.is_false(z3.simplify(s.mem(PROBE)))]
        if len(sets) != 1 or self.final is not None: raise Unfit("one empty set before the loop expected")
        S = sets[0]; R = z3.Function(eng.fresh("acc"), Lab, B)
        if eng.choose():
            S.mem = lambda y: R(y); x = eng.label("elem"); rest = [(o, v) for o, v in eng.state() if o is not S]
            yield Lbl(x)
            eng.unchanged(rest); y = eng.label("y")
            eng.prove("one more node", S.mem(y) == self.step(R, x)(y))
            raise PathEnd
        S.mem = lambda y: R(y); S.ver += 1; self.final = R

class SLen:
    """A length or an index: may only be compared with 0 (if a comparison is known) or reported."""
    def __init__(self, zero=None, one=None): self.zero, self.one = zero, one
    def __add__(self, o): return SLen()
    __sub__ = __radd__ = __rsub__ = __neg__ = __mul__ = __add__
    def __eq__(self, o):
        if o == 0 and isinstance(o, int) and self.zero: return self.zero()
        if o == 1 and isinstance(o, int) and self.one: return self.one()
        raise Unfit("a length is compared")
    def __ne__(self, o): return not self == o
    def __gt__(self, o):
        if o == 0: return self != 0
        if o == 1 and self.one: return not (self == 0) and not (self == 1)
        raise Unfit("a length is compared")
    def __ge__(self, o):
        if o == 1: return self != 0
        raise Unfit("a length is compared")
    def __lt__(self, o): return not self >= o
    def __le__(self, o): return not self > o
    def __bool__(self): return not self == 0
    def __index__(self): raise Unfit("a symbolic length is used as an index")
    __int__ = __index__
    __hash__ = None

class Layers:
    """An arbitrary sequence of sets: n of them, the k-th with members el(k, x)."""
    def __init__(self, n, el, off=0, rev=False): self.n, self.el, self.off, self.rev = n, el, off, rev
    def count(self): return self.n - self.off
    def at(self, j):
        """index in the full sequence of the j-th visited one"""
        return self.n - 1 - j if self.rev else j + self.off
    def pos(self, k):
        """position in the visiting order of the k-th one of the full sequence"""
        return self.n - 1 - k if self.rev else k - self.off
    def set_at(self, j):
        k = self.at(j); return FSet(lambda x: self.el(k, x))
    def empty(self): return not cur().decide(self.count() > 0)
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is not None or i.step not in (None,) or self.rev: raise Unfit("slice of layers")
            if i.start not in (None, 0, 1): raise Unfit("slice of layers")
            return Layers(self.n, self.el, self.off + (i.start or 0))
        if i == 0 and not self.rev:
            if self.empty(): raise IndexError("layers")
            return self.set_at(z3.IntVal(0))
        raise Unfit("layer index")
    def __reversed__(self):
        if self.rev: raise Unfit("reversed twice")
        return Layers(self.n, self.el, self.off, True)
    def __bool__(self): return not self.empty()
    def __len__(self): raise Unfit("length of symbolic layers")
    def __iter__(self): raise Unfit("iteration outside a loop")
    def gv_iter(self, early=True):
        eng = cur(); roles = eng.roles
        sets = [s for s in eng.alive() if z3.is_false(z3.simplify(s.mem(PROBE)))]
        if len(sets) != len(roles): raise Unfit(f"{len(sets)} empty sets before the loop, {len(roles)} expected")
        order = eng.role_order or range(len(roles)); x = eng.label("x")
        pairs = [(s, roles[order[k]](self)) for k, s in enumerate(sets)]
        for s, r in pairs: eng.prove("loop invariant: holds initially", z3.Not(r(z3.IntVal(0), x)))
        rest = [(o, v) for o, v in eng.state() if not any(o is s for s, _ in pairs)]
        def havoc(j):
            for s, r in pairs: s.mem = (lambda y, r=r, j=j: r(j, y)); s.ver += 1; s.tag = None
        def one(j):
            havoc(j)
            if eng.extra is not None:      # what earlier iterations, having completed, have established for their layer
                eng.forall(self.el, lambda i, y: z3.Implies(z3.And(self.pos(i) >= 0, self.pos(i) < j), eng.extra(i, y)))
            return self.set_at(j)
        if (eng.layer_guides is None or early) and eng.choose():
            j = z3.Int(eng.fresh("layer")); eng.layer_index = self.at(j)
            eng.assume(z3.And(j >= 0, j < self.count()))
            if not eng.feasible(): raise Infeasible
            yield one(j)
            eng.unchanged(rest)
            y = eng.label("y")
            for s, r in pairs: eng.prove("loop invariant: preserved", s.mem(y) == r(j + 1, y))
            if eng.extra is not None: eng.prove("loop invariant: completed layers", eng.extra(self.at(j), y))
            raise PathEnd
        if eng.layer_guides is not None:
            for g in eng.layer_guides:
                j = self.pos(g)
                if eng.decide(z3.And(j >= 0, j < self.count())):
                    eng.layer_index = g
                    yield one(j); eng.unchanged(rest)
        eng.layer_index = None
        havoc(self.count())
        if eng.extra is not None: eng.forall(self.el, lambda i, y: z3.Implies(z3.And(self.pos(i) >= 0, self.pos(i) < self.count()), eng.extra(i, y)))

def past(eng, seq, cond=None, name="past"):
    """The predicate 'in one of the first j visited sets (and cond)' with its defining facts, as a function of j and x."""
    P = z3.Function(eng.fresh(name), I, Lab, B); J = z3.Function(eng.fresh(name + "_at"), I, Lab, I)
    el = lambda j, x: seq.el(seq.at(j), x) if cond is None else z3.And(seq.el(seq.at(j), x), cond(x))
    eng.forall(P, lambda j, y: z3.Implies(P(j, y), z3.And(J(j, y) >= 0, J(j, y) < j, el(J(j, y), y))))
    eng.forall((P, I), lambda j, y, k: z3.Implies(z3.And(seq.pos(k) >= 0, seq.pos(k) < j, el(seq.pos(k), y)), P(j, y)))
    at = lambda j, x: P(j, x)
    at.P, at.J, at.el = P, J, el
    return at

# -- lifting real functions ---------------------------------------------------------------------------------------
def gv_set(*parts):
    if all(k == "" and not isinstance(v, (Lbl, SEnum)) for k, v in parts): return frozenset(v for _, v in parts)
    ms = []
    for k, v in parts:
        if k == "*": ms.append(conv(v).mem)
        elif isinstance(v, Lbl): ms.append(lambda x, v=v: x == v.e)
        else: raise Unfit("mixed set")
    return FSet(lambda x: z3.Or(*[m(x) for m in ms]), True)
def gv_in(x, c):
    if isinstance(x, SEnum):
        if isinstance(c, (frozenset, set, list, tuple)):
            es = [x == y for y in c]
            return SBool(z3.Or(*[e.e if isinstance(e, SBool) else z3.BoolVal(e) for e in es]))
        raise Unfit("membership of a symbolic constant")
    if isinstance(x, Lbl) and isinstance(c, (FSet, FMap, FSeq)): return c.contains(x)
    if getattr(type(c), "gv_in", None): return c.gv_in(x)
    if isinstance(x, Lbl) and isinstance(c, (list, tuple)): return SBool(z3.Or(*[x.e == y.e for y in c])) if c else False
    return x in c
def gv_not(v): return SBool(z3.Not(v.e)) if isinstance(v, SBool) else not v
def gv_filter(kind, it, cond):
    if getattr(type(it), "gv_filter", None): return it.gv_filter(kind, cond)
    if isinstance(it, (FSet, FSeq, FMap)):
        m = conv(it).mem; eng = cur(); memo = {}
        def at(x):
            if x.get_id() not in memo:
                if eng.recording is not None: raise Unfit("a filtered set inside a predicate")
                errs = []; f = eng.formula(lambda: cond(Lbl(x)), errs); memo[x.get_id()] = (x, f, errs)
            return memo[x.get_id()]
        probe = eng.label("filtered"); errs = at(probe)[2]
        for k, (_, exc) in enumerate(errs):          # can evaluating the condition fail for some element?
            bad = lambda x, k=k: z3.And(m(x), at(x)[2][k][0])
            def yes(): eng.assume(bad(probe))
            if eng.ask("comprehension fails", yes, lambda: eng.forall(Lab, lambda x: z3.Not(bad(x)))): raise exc
        mem = lambda x: z3.And(m(x), at(x)[1])
        if kind == "list": return FSeq(mem)
        return FSet(mem, kind == "set")
    r = (x for x in it if cond(x))
    return list(r) if kind == "list" else set(r) if kind == "set" else r
def gv_aug(op, x, y):
    if isinstance(x, FSet):
        if not x.mutable: raise Unfit("augmented assignment of a frozen set")
        {"BitOr": x.update, "BitAnd": x.intersection_update, "Sub": x.difference_update, "BitXor": x.symmetric_difference_update}[op](y)
        return x
    if isinstance(x, SLen): return SLen()
    raise Unfit("a local variable is carried through the loop")
def gv_union(o, it):
    if getattr(type(it), "gv_bigunion", None): return it.gv_bigunion() if isinstance(o, type) else conv(o).union(it.gv_bigunion())
    if isinstance(it, FVals): return conv(o).union(it.bigunion()) if not isinstance(o, FSet) else o.union(it.bigunion())
    return o.union(*it)
def gv_len(x):
    if isinstance(x, Layers): return SLen(zero=x.empty)
    if isinstance(x, (FSet, FMap)):
        s = conv(x)
        def one():
            eng = cur(); m = s.mem
            def yes():
                w = eng.label("only"); eng.assume(m(w)); eng.forall(Lab, lambda y: z3.Implies(m(y), y == w))
            def no():
                b = eng.choose()
                if b: eng.forall(Lab, lambda y: z3.Not(m(y)))
                else:
                    u, w = eng.label("first"), eng.label("second"); eng.assume(z3.And(m(u), m(w), u != w))
            return eng.ask("single", yes, no)
        return SLen(zero=lambda: not s, one=one)
    if isinstance(x, FSeq): return SLen(zero=lambda: not x)
    return len(x)
def gv_mkset(x=(), mutable=True):
    if isinstance(x, FSet): return FSet(x.mem, mutable, x.tag)
    if isinstance(x, (FSeq, FMap)): return FSet(conv(x).mem, mutable)
    if isinstance(x, (set, frozenset, list, tuple)):
        x = list(x)
        if not x and mutable: return FSet(lambda e: z3.BoolVal(False), True)
        if all(isinstance(y, Lbl) for y in x): return FSet(conv(x).mem, mutable)
        return (set if mutable else frozenset)(x)
    raise Unfit(f"set of {type(x).__name__}")
class gv_dict_t:
    def __call__(self): return FMap(lambda e: z3.BoolVal(False), lambda e: (_ for _ in ()).throw(Unfit("no value")), True)
gv_dict = gv_dict_t()

def gv_for(x, early=True): return x.gv_iter(early) if isinstance(x, (FSet, FSeq, FMap, FVals, FItems, Layers, Enumerated, Fold)) else x
class Enumerated:
    def __init__(self, x): self.x = x
    def gv_iter(self, early=True): return ((SLen(), y) for y in self.x.gv_iter(early))
def gv_enumerate(x, start=0): return Enumerated(x) if isinstance(x, (FSet, FSeq, FMap, FVals, FItems, Layers)) else enumerate(x, start)

class _SetType(type):
    def __instancecheck__(c, o): return isinstance(o, (FSet, set))
class mkset(metaclass=_SetType):
    def __new__(cls, x=()): return gv_mkset(x, True)
class mkfrozenset(metaclass=_SetType):
    def __new__(cls, x=()): return gv_mkset(x, False)
    @staticmethod
    def union(*xs): return gv_mkset(conv(xs[0]).union(*xs[1:]), False)

class Lift(ast.NodeTransformer):
    def call(self, f, *a): return ast.Call(ast.Name(f, ast.Load()), list(a), [])
    def visit_Set(self, n):
        self.generic_visit(n)
        ps = [ast.Tuple([ast.Constant("*"), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant(""), e], ast.Load()) for e in n.elts]
        return self.call("gv_set", *ps)
    def visit_Dict(self, n):
        self.generic_visit(n)
        return n if n.keys else self.call("gv_dict")
    def comp(self, kind):
        def f(n):
            self.generic_visit(n)
            if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == n.generators[0].target.id:
                g = n.generators[0]; cs = g.ifs or [ast.Constant(True)]
                c = cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)
                lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), c)
                return self.call("gv_filter", ast.Constant(kind), g.iter, lam)
            return n
        return f
    def visit_SetComp(self, n): return self.comp("set")(n)
    def visit_ListComp(self, n): return self.comp("list")(n)
    def visit_GeneratorExp(self, n): return self.comp("gen")(n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In): return self.call("gv_in", n.left, n.comparators[0])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn): return self.call("gv_not", self.call("gv_in", n.left, n.comparators[0]))
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], self.call("gv_aug", ast.Constant(type(n.op).__name__), ast.Name(n.target.id, ast.Load()), n.value))
        return n
    def visit_For(self, n):
        early = any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b))      # may be left before its last element
        self.generic_visit(n); n.iter = self.call("gv_for", n.iter, ast.Constant(early)); return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("all", "any") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            for g in n.args[0].generators: g.iter = self.call("gv_for", g.iter, ast.Constant(True))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "union" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred):
            return self.call("gv_union", n.func.value, n.args[0].value)
        return n
    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return ast.Assign([n.target], n.value) if n.value is not None else ast.Pass()
    def visit_arg(self, n): n.annotation = None; return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n); n.decorator_list = []; n.returns = None; return n

class Carried(Exception): pass

def carried(fd):
    """Names whose value may flow from one iteration of a loop to the next, or out of it."""
    bad = set()
    def stored(stmts):
        out = set()
        for s in stmts:
            for nd in ast.walk(s):
                if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store): out.add(nd.id)
            # augmented assignments are checked when executed
        aug = {nd.target.id for s in stmts for nd in ast.walk(s) if isinstance(nd, ast.AugAssign) and isinstance(nd.target, ast.Name)}
        plain = set()
        for s in stmts:
            for nd in ast.walk(s):
                if isinstance(nd, ast.AugAssign): continue
                for f in ast.iter_child_nodes(nd):
                    if isinstance(f, ast.Name) and isinstance(f.ctx, ast.Store): plain.add(f.id)
        return (out - aug) | (plain & aug)
    def expr(e, st):
        """loads in evaluation order are not distinguished from stores by walrus within the same expression: walrus last"""
        if e is None: return
        stores = []; own = {}
        for c in ast.walk(e):
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                names = {t.id for g in getattr(c, "generators", []) for t in ast.walk(g.target) if isinstance(t, ast.Name)} | ({a.arg for a in c.args.args} if isinstance(c, ast.Lambda) else set())
                for nd in ast.walk(c):
                    if isinstance(nd, ast.Name) and nd.id in names: own[id(nd)] = True
                for nd in ast.walk(c.generators[0].iter) if getattr(c, "generators", None) else ():
                    own.pop(id(nd), None)
        for nd in ast.walk(e):
            if isinstance(nd, ast.Name) and id(nd) not in own:
                if isinstance(nd.ctx, ast.Load):
                    if st.get(nd.id) == "t" and nd.id not in {s.id for s in stores}: bad.add(nd.id)
                else: stores.append(nd)
        comp = {t.id for nd in ast.walk(e) if isinstance(nd, ast.comprehension) for t in ast.walk(nd.target) if isinstance(t, ast.Name)}
        for s in stores:
            if s.id not in comp: st[s.id] = "o"
    def merge(st, *arms):
        arms = [a for a in arms if a is not None]
        if not arms: return False
        for k in set().union(*arms):
            st[k] = "t" if any(a.get(k, "o") == "t" for a in arms) else "o"
        return True
    def block(stmts, st):
        """False if control does not reach the end"""
        for s in stmts:
            if not stmt(s, st): return False
        return True
    def stmt(s, st):
        if isinstance(s, (ast.Return, ast.Raise)):
            expr(getattr(s, "value", None), st); expr(getattr(s, "exc", None), st); return False
        if isinstance(s, (ast.Continue, ast.Break)): return False
        if isinstance(s, ast.Assign):
            expr(s.value, st)
            for t in s.targets: expr(t, st)
            return True
        if isinstance(s, ast.AnnAssign):
            expr(s.value, st); expr(s.target, st); return True
        if isinstance(s, ast.AugAssign):
            expr(s.value, st); return True
        if isinstance(s, ast.If):
            expr(s.test, st); a, b = dict(st), dict(st)
            ra, rb = block(s.body, a), block(s.orelse, b)
            return merge(st, a if ra else None, b if rb else None)
        if isinstance(s, ast.Match):
            expr(s.subject, st); arms = []
            for c in s.cases:
                a = dict(st); arms.append(a if block(c.body, a) else None)
            return merge(st, dict(st), *arms)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For): expr(s.iter, st)
            names = stored(s.body) | ({t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)} if isinstance(s, ast.For) else set())
            for n in names: st[n] = "t"
            a = dict(st)
            if isinstance(s, ast.For): expr(s.target, a)
            else: expr(s.test, a)
            block(s.body, a)
            for n in names: st[n] = "t"
            return block(s.orelse, st)
        if isinstance(s, ast.Try):
            a = dict(st); r = block(s.body, a); arms = [a if r else None]
            for h in s.handlers:
                b = dict(a); arms.append(b if block(h.body, b) else None)
            ok = merge(st, *arms); return ok and block(s.orelse, st) and block(s.finalbody, st)
        if isinstance(s, ast.With):
            for i in s.items: expr(i.context_expr, st)
            return block(s.body, st)
        if isinstance(s, ast.FunctionDef): return True
        for nd in ast.iter_child_nodes(s):
            if isinstance(nd, ast.expr): expr(nd, st)
        return True
    block(fd.body, {})
    return bad

def lift(fn, lifter=None, **env):
    f = raw(fn)
    try: fd = ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]
    except (OSError, TypeError) as e: raise Unfit(f"no source: {e}") from None
    bad = carried(fd) if lifter is None else ()
    if bad: raise Unfit(f"{f.__qualname__}: {sorted(bad)} carried through a loop")
    if any(isinstance(nd, (ast.Yield, ast.YieldFrom)) for nd in ast.walk(fd)): raise Unfit("a generator function")
    lf = (lifter or Lift)(); lf.fname = f.__name__; fd = lf.visit(fd)
    cls = f.__qualname__.split(".")[-2] if "." in f.__qualname__ and "<locals>" not in f.__qualname__ else None
    body = [ast.ClassDef(name=cls, bases=[], keywords=[], body=[fd], decorator_list=[], type_params=[])] if cls else [fd]
    mod = ast.fix_missing_locations(ast.Module(body=body, type_ignores=[]))
    g = dict(f.__globals__)
    def inst(x, t):
        if isinstance(x, SEnum): return x.is_a(t)
        return isinst(x, t)
    g.update({"isinstance": inst, "set": mkset, "frozenset": mkfrozenset, "len": gv_len, "enumerate": gv_enumerate, "gv_for": gv_for, "gv_set": gv_set, "gv_in": gv_in, "gv_not": gv_not, "gv_filter": gv_filter, "gv_aug": gv_aug, "gv_union": gv_union, "gv_dict": gv_dict})
    if f.__closure__: g.update({n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__)})
    for n, v in list(g.items()):       # helper functions of the library are lifted too, when called
        if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("graphix.") and n not in env:
            g[n] = lambda *a, v=v, **k: lift(v, lifter, **env)(*a, **k)
    g.update(env)
    ns: dict = {}
    exec(compile(mod, f"<lifted {f.__qualname__}>", "exec", flags=__import__("__future__").annotations.compiler_flag), g, ns)
    r = ns[cls].__dict__[fd.name] if cls else ns[fd.name]
    return r

class Obj:
    """A stand-in for an instance of a library class: given attributes; methods are the real ones, lifted."""
    def __init__(self, cls, env=None, lifter=None, **attrs):
        self.__dict__["gv_lift"] = lifter or lift
        self.__dict__.update(attrs); self.__dict__["gv_cls"] = cls; self.__dict__["gv_env"] = env or {}
    def __getattr__(self, a):
        cls = self.__dict__["gv_cls"]
        for k in cls.__mro__ if cls else ():
            if a in k.__dict__:
                v = k.__dict__[a]
                if isinstance(v, types.FunctionType): return types.MethodType(self.__dict__["gv_lift"](v, **self.__dict__["gv_env"]), self)
                if isinstance(v, staticmethod): return self.__dict__["gv_lift"](v.__func__, **self.__dict__["gv_env"])
                if isinstance(v, property): return self.__dict__["gv_lift"](v.fget, **self.__dict__["gv_env"])(self)
        raise Unfit(f"attribute {a}")
    def __setattr__(self, a, v): raise Unfit("an attribute is assigned")
