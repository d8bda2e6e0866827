"""Arbitrary graphs and node sets for code made of set operations on nodes, edges and neighbourhoods.

A node set is a predicate on nodes (an uninterpreted sort), a set of pairs a predicate on ordered pairs, a graph a symmetric
irreflexive relation that operations replace.  `lift` rewrites the real function on every run: a comprehension or a loop over a
node set is evaluated once, on an arbitrary element of it.  Everything else is outside the contract (Unfit)."""
from __future__ import annotations
import ast, inspect, itertools, textwrap, types
from . import boot
from .core import Unfit
from .extract import raw
z3 = boot.z3()
N, B = z3.DeclareSort("Node"), z3.BoolSort()
BEFORE = z3.Function("before", N, N, B)      # an arbitrary order of enumeration
class Refuted(Exception): pass
_ctr = itertools.count()
def fresh(n="x"): return z3.Const(f"{n}!{next(_ctr)}", N)

class Ctx:
    """Facts, the graph and the effects of one symbolic run."""
    def __init__(self, facts=()): self.facts, self.guard, self.effects = list(facts), [], []
    def valid(self, f, nodes=()):
        s = z3.Solver(); s.set("timeout", 10000); xs = {str(x): x for x in nodes}
        todo = [f, *self.facts, *self.guard]
        def consts(e, seen=set()):
            st = [e]
            while st:
                t = st.pop()
                if z3.is_const(t) and t.sort() == N: xs[str(t)] = t
                st.extend(t.children())
        for t in todo: consts(t)
        vs = list(xs.values())
        for a in vs:
            s.add(z3.Not(ADJ(a, a)), z3.Not(BEFORE(a, a)))
            for b in vs: s.add(ADJ(a, b) == ADJ(b, a), z3.Implies(a != b, z3.Xor(BEFORE(a, b), BEFORE(b, a))))
        s.add(*self.facts, *self.guard, z3.Not(f)); r = s.check()
        return True if r == z3.unsat else False if r == z3.sat else None
ADJ = z3.Function("adj", N, N, B)
CUR: list[Ctx] = []
def ctx(): return CUR[-1]

class Node:
    def __init__(self, e): self.e = e
    def __eq__(self, o): raise Unfit("comparison of nodes")
    __hash__ = object.__hash__
def term(x):
    if isinstance(x, Node): return x.e
    raise Unfit(f"node expected, got {x!r}")
class NodeSet:
    def __init__(self, p): self.p = p
    @staticmethod
    def of(o):
        if isinstance(o, NodeSet): return o
        if isinstance(o, (set, frozenset, list, tuple)): ts = [term(x) for x in o]; return NodeSet(lambda a: z3.Or(*[a == t for t in ts]) if ts else z3.BoolVal(False))
        raise Unfit("node set expected")
    def _b(self, o, f):
        q = NodeSet.of(o).p; p = self.p; return NodeSet(lambda a: f(p(a), q(a)))
    def __and__(self, o): return self._b(o, z3.And)
    def __or__(self, o): return self._b(o, z3.Or)
    def __xor__(self, o): return self._b(o, z3.Xor)
    def __sub__(self, o): return self._b(o, lambda a, b: z3.And(a, z3.Not(b)))
    __rand__, __ror__ = __and__, __or__
    def __rsub__(self, o): return NodeSet.of(o) - self
    intersection, union, difference, symmetric_difference = __and__, __or__, __sub__, __xor__
    def copy(self): return self
    def __iter__(self): raise Unfit("enumeration of an arbitrary node set")
    def __contains__(self, x): raise Unfit("membership outside a condition")
    def __len__(self): raise Unfit("size")
    def __bool__(self): raise Unfit("emptiness")
    def elements(self):
        x = fresh(); return Node(x), [self.p(x)]
class Pairs:
    def __init__(self, p): self.p = p
    def _b(self, o, f):
        if isinstance(o, Edges): o = Pairs(o.e)
        if not isinstance(o, Pairs): raise Unfit("set of pairs expected")
        p, q = self.p, o.p; return Pairs(lambda a, b: f(p(a, b), q(a, b)))
    def __and__(self, o): return self._b(o, z3.And)
    def __or__(self, o): return self._b(o, z3.Or)
    def __xor__(self, o):
        if isinstance(o, Edges): raise Unfit("orientation")
        return self._b(o, z3.Xor)
    def __sub__(self, o): return self._b(o, lambda a, b: z3.And(a, z3.Not(b)))
    intersection, difference = __and__, __sub__
    def __iter__(self): raise Unfit("enumeration of pairs")
    def elements(self):
        a, b = fresh(), fresh(); return (Node(a), Node(b)), [self.p(a, b)]
class Edges:
    """networkx edge view: membership ignores the orientation; every edge is listed once, from a node of nbunch"""
    def __init__(self, e, nb=None): self.e, self.nb = e, nb
    def __call__(self, nb=None): return Edges(self.e, NodeSet.of(nb)) if nb is not None else self
    def __and__(self, o): return o & self if self.nb is None and isinstance(o, Pairs) else (_ for _ in ()).throw(Unfit("edges"))
    __rand__ = __and__
    def __iter__(self): raise Unfit("enumeration of edges")
    def elements(self):
        a, b = fresh(), fresh(); f = [self.e(a, b)]
        if self.nb is None: f.append(BEFORE(a, b))
        else: f += [self.nb.p(a), z3.Or(z3.Not(self.nb.p(b)), BEFORE(a, b))]
        return (Node(a), Node(b)), f
class Graph:
    def __init__(self): self.e = lambda a, b: ADJ(a, b)
    def neighbors(self, u): t, e = term(u), self.e; return NodeSet(lambda a: e(t, a))
    def __getitem__(self, u): return self.neighbors(u)
    @property
    def edges(self): return Edges(self.e)
    def has_edge(self, a, b): raise Unfit("has_edge outside a condition")
    def _pairs(self, P):
        if getattr(ctx(), "loops", 0): raise Unfit("a loop over an arbitrary set changes the graph")
        if isinstance(P, Edges): P = Pairs(P.e)
        if isinstance(P, (list, set, tuple)): raise Unfit("explicit edges")
        if not isinstance(P, Pairs): raise Unfit("set of pairs expected")
        return lambda a, b: z3.Or(P.p(a, b), P.p(b, a))
    def remove_edges_from(self, P): q, e = self._pairs(P), self.e; self.e = lambda a, b: z3.And(e(a, b), z3.Not(q(a, b)))
    def add_edges_from(self, P):
        q, e = self._pairs(P), self.e; a = fresh()
        if ctx().valid(z3.Not(q(a, a)), [a]) is not True: raise Unfit("self-loops")
        self.e = lambda a, b: z3.Or(e(a, b), q(a, b))
    def __getattr__(self, n): raise Unfit(f"graph: {n}")

def combinations(s, k):
    if k != 2: raise Unfit("combinations")
    p = NodeSet.of(s).p; return Pairs(lambda a, b: z3.And(p(a), p(b), BEFORE(a, b)))
def product(s, t):
    p, q = NodeSet.of(s).p, NodeSet.of(t).p; return Pairs(lambda a, b: z3.And(p(a), q(b)))
def _set(x=()):
    if isinstance(x, (NodeSet, Pairs)): return x
    if isinstance(x, Edges): raise Unfit("orientation of edges")
    return set(x)
def _list(x=()): return x if isinstance(x, (NodeSet, Pairs, Edges)) else list(x)

def gv_in(x, s, neg=False):
    if isinstance(s, NodeSet): f = s.p(term(x))
    elif isinstance(s, Edges) and s.nb is None: f = s.e(term(x[0]), term(x[1]))
    elif isinstance(s, Pairs): f = s.p(term(x[0]), term(x[1]))
    elif isinstance(s, (set, frozenset, tuple, list)) and isinstance(x, Node): f = NodeSet.of(s).p(x.e)
    else: r = x in s; return (not r) if neg else r
    return Cond(z3.Not(f) if neg else f)
class Cond:
    def __init__(self, f): self.f = f
    def __bool__(self):
        c = ctx(); c2 = Ctx(c.facts); c2.guard = c.guard
        if c2.valid(self.f) is True: return True
        if c2.valid(z3.Not(self.f)) is True: return False
        raise Unfit("branch on an arbitrary condition")
def gv_cond(c):
    if isinstance(c, Cond): ctx().guard.append(c.f); return True
    if isinstance(c, bool): return c
    raise Unfit("condition")
def gv_eq(a, b, neg=False):
    a, b = (bool(x) if isinstance(x, Cond) else x for x in (a, b))
    if isinstance(a, Node) and isinstance(b, Node): return Cond((a.e != b.e) if neg else (a.e == b.e))
    r = (a == b); return (not r) if neg else r
def gv_and(*fs):
    vs = [f() for f in fs]
    if any(isinstance(v, Cond) for v in vs): return Cond(z3.And(*[v.f if isinstance(v, Cond) else z3.BoolVal(bool(v)) for v in vs]))
    return all(vs)
def gv_not(v): return Cond(z3.Not(v.f)) if isinstance(v, Cond) else not v
def gv_elem(src):
    if isinstance(src, (NodeSet, Pairs, Edges)):
        x, f = src.elements(); ctx().guard.extend(f); return [x]
    if isinstance(src, (list, tuple, range)) and len(src) <= 4: return src
    raise Unfit("source of a comprehension")
def gv_comp(kind, gen):
    """gen() is the comprehension evaluated on one arbitrary element of every source; the conditions are in the guard"""
    c = ctx(); k = len(c.guard); out = list(gen()); g = c.guard[k:]; del c.guard[k:]
    if len(out) != 1: raise Unfit("comprehension")
    x = out[0]
    if isinstance(x, Node): f, vs = z3.And(*g), [x.e]
    elif isinstance(x, tuple) and len(x) == 2: f, vs = z3.And(*g), [term(y) for y in x]
    else: raise Unfit("element of a comprehension")
    loc = [v for v in _consts(f) if v.decl().name().startswith("x!")]
    if {str(v) for v in loc} - {str(v) for v in vs} or not all(v.decl().name().startswith("x!") for v in vs) or len({str(v) for v in vs}) != len(vs): raise Unfit("element of a comprehension is not its variables")
    if len(vs) == 1: return NodeSet(lambda a: z3.substitute(f, (vs[0], a)))
    return Pairs(lambda a, b: z3.substitute(f, (vs[0], a), (vs[1], b)))
def _consts(f):
    out, st = {}, [f]
    while st:
        t = st.pop()
        if z3.is_const(t) and t.sort() == N: out[str(t)] = t
        st.extend(t.children())
    return list(out.values())
class Break(Exception): pass
def gv_for(src):
    """a loop over a node set: its body is run once, on an arbitrary element; effects are recorded under its membership"""
    if isinstance(src, (NodeSet, Pairs, Edges)):
        c = ctx(); k = len(c.guard); x, f = src.elements(); c.guard.extend(f); c.loops = getattr(c, "loops", 0) + 1
        try: yield x
        finally: del c.guard[k:]
        c.loops -= 1
    else: yield from src

class _Lift(ast.NodeTransformer):
    def call(self, f, *a): return ast.Call(ast.Name(f, ast.Load()), list(a), [])
    def comp(self, kind, n):
        n = self.generic_visit(n)
        gens = [ast.comprehension(g.target, self.call("gv_elem", g.iter), [self.call("gv_cond", c) for c in g.ifs], 0) for g in n.generators]
        return self.call("gv_comp", ast.Constant(kind), ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.GeneratorExp(n.elt, gens)))
    def visit_SetComp(self, n): return self.comp("set", n)
    def visit_ListComp(self, n): return self.comp("list", n)
    def visit_GeneratorExp(self, n): return self.comp("gen", n)
    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)): return self.call("gv_in", n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.NotIn)))
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)): return self.call("gv_eq", n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.NotEq)))
        return n
    def visit_BoolOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.And): return self.call("gv_and", *[ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in n.values])
        return n
    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        return self.call("gv_not", n.operand) if isinstance(n.op, ast.Not) else n
    def visit_For(self, n):
        n = self.generic_visit(n)
        if n.orelse: raise Unfit("for ... else")
        n.iter = self.call("gv_for", n.iter); return n
    def visit_While(self, n): raise Unfit("while loop")

ENV = dict(gv_in=gv_in, gv_cond=gv_cond, gv_elem=gv_elem, gv_comp=gv_comp, gv_for=gv_for, gv_eq=gv_eq, gv_and=gv_and, gv_not=gv_not, set=_set, list=_list, frozenset=_set, tuple=lambda x=(): _list(x) if isinstance(x, (NodeSet, Pairs, Edges)) else tuple(x),
           sorted=lambda x, **k: x if isinstance(x, NodeSet) else sorted(x, **k), itertools=types.SimpleNamespace(combinations=combinations, product=product), combinations=combinations, product=product)
def lift(fn, **over):
    f = raw(fn)
    try: t = ast.parse(textwrap.dedent(inspect.getsource(f)))
    except (OSError, SyntaxError, IndentationError) as e: raise Unfit(f"source: {e}")
    d = t.body[0]
    if not isinstance(d, ast.FunctionDef) or f.__closure__: raise Unfit("not a plain function")
    d.decorator_list = []; d.returns = None
    for a in ast.walk(d.args):
        if isinstance(a, ast.arg): a.annotation = None
    m = ast.fix_missing_locations(_Lift().visit(t)); g = {**f.__globals__, **ENV, **over}; ns = {}
    exec(compile(m, f"<lifted {f.__qualname__}>", "exec", flags=__import__("__future__").annotations.compiler_flag), g, ns)
    r = ns[d.name]; r.__defaults__, r.__kwdefaults__ = f.__defaults__, f.__kwdefaults__
    return r

def run(facts, go):
    """go(ctx) in a fresh context."""
    c = Ctx(facts); CUR.append(c)
    try: go(c)
    finally: CUR.pop()
    return c
