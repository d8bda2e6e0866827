from __future__ import annotations
import itertools, random, types
import numpy as np
from gv import boot, gen as G  # noqa: F401
from gv.core import Prop, Unfit, need
from graphix import optimization as O
from graphix.command import CommandKind, E, M as Meas, N, X, Z
from graphix.flow import core as FC_
from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import XZCorrectionsError
from graphix.measurements import Measurement
from graphix.opengraph import OpenGraph
from graphix.pattern import Pattern

FL, FO, FP, FCO = "graphix/flow/_partial_order.py:", "graphix/optimization.py:", "graphix/pattern.py:", "graphix/flow/core.py:"
P = Prop("C10", "proof",
    "Layering is proved for every finite relation (loop contracts over arbitrary sets, with the counting argument per node), and the construction of the relation and "
    "of the layers for every standardized pattern and for every pair of correction mappings (loop contracts over arbitrary mappings). "
    "Derived orders (total order, depth, rewriting to layers) are checked on random inputs against longest-path depths (bounded).",
    ["finite sets; cardinality of the set of unplaced predecessors counts decrements", "the structure of standardized patterns (every node prepared or input once, measured or output once) is assumed here and established in C08"], ["z3"])

def depth(nodes, rel):
    """Longest chain of predecessors ending at each node; None if cyclic.  rel: set of (before, after)."""
    pred = {v: {a for a, b in rel if b == v} for v in nodes}
    d = {}
    state = {}
    def go(v):
        if v in d: return True
        if state.get(v): return False
        state[v] = 1
        for u in pred[v]:
            if not go(u): return False
        d[v] = max((d[u] + 1 for u in pred[v]), default=0)
        return True
    return d if all(go(v) for v in nodes) else None

def layers_of(nodes, rel):
    d = depth(nodes, rel)
    if d is None: return None
    k = max(d.values(), default=-1) + 1
    return [frozenset(v for v in nodes if d[v] == i) for i in range(k)]

def rel_cases(rng, tier):
    for n in range(4):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        if len(pairs) <= 9:
            for bits in range(2 ** len(pairs)):
                yield [n, [p for i, p in enumerate(pairs) if bits >> i & 1], "all"]
    while True:
        n = rng.randrange(1, 12)
        acyclic = rng.random() < .7
        perm = rng.sample(range(3 * n), n)
        d = rng.choice([.1, .3, .6])
        rel = [(perm[a], perm[b]) for a in range(n) for b in range(n) if rng.random() < d and (a < b or not acyclic)]
        yield [perm, rel, "random"]

@P.bounded("topological generations", [FL + "compute_topological_generations"], rel_cases, "every relation on at most 3 nodes, random ones up to 11 nodes", quick=3, thorough=40)
def topo(case):
    import importlib
    try: f = need(importlib.import_module("graphix.flow._partial_order"), "compute_topological_generations")
    except ImportError as e: raise Unfit(str(e)) from None
    nodes, rel, _ = case
    nodes = list(range(nodes)) if isinstance(nodes, int) else nodes
    rel = {tuple(x) for x in rel}
    dag = {v: {b for a, b in rel if a == v} for v in nodes}
    deg = {v: k for v in nodes if (k := sum(b == v for _, b in rel))}
    zero = {v for v in nodes if v not in deg}
    snap = ({v: set(s) for v, s in dag.items()}, dict(deg))
    got = f(dag, deg, zero)
    want = layers_of(nodes, rel)
    assert (got is None) == (want is None), f"{got} for a relation that is {'cyclic' if want is None else 'acyclic'}"
    if want is not None: assert list(got) == want, f"{got} != {want}"
    assert snap == (dag, deg), "arguments modified"

def pat_cases(rng, tier): yield from G.seeds(rng, lambda r: r.randrange(1, 9))

@P.bounded("layers of patterns", [FO + "StandardizedPattern.partial_order_layers", FP + "Pattern.partial_order_layers", FP + "Pattern.parallelize_pattern", FP + "Pattern._measurement_order_depth", FP + "Pattern.sort_measurement_commands"], pat_cases,
           "random runnable patterns up to 8 nodes", quick=6, thorough=80)
def of_patterns(case):
    seed, n = case
    r = random.Random(seed)
    p = G.pattern(r, n, states=False, all_measured=r.random() < .2, domains=.6, cliffords=0)
    s = O.StandardizedPattern.from_pattern(p)
    outs = frozenset(p.output_nodes); nodes = set(p.nodes())
    rel = set()
    for m in s.m_list:
        rel |= {(d, m.node) for d in m.s_domain | m.t_domain}
    rel = {(a, b) for a, b in rel if a not in outs and b not in outs}
    want = layers_of(nodes - outs, rel)
    got = p.partial_order_layers()
    exp = ([outs] if outs else []) + want[::-1]
    assert list(got) == exp, f"{got} != {exp}"
    assert all(got), "empty layer"
    # the standardized form determines the same relation as the pattern itself
    q = p.copy()
    kinds = sorted(str(type(c)) for c in q)
    q.parallelize_pattern()
    q.check_runnability()
    order = [c.node for c in q if c.kind == CommandKind.M]
    lay = {v: i for i, l in enumerate(got) for v in l}
    assert sorted(order) == sorted(nodes - outs), "a measurement was lost"
    assert [lay[v] for v in order] == sorted((lay[v] for v in order), reverse=True), "measurements are not gathered by layers"
    pos = {c.node: c for c in s.m_list}
    for c in q:
        if c.kind == CommandKind.M: assert (c.measurement, c.s_domain, c.t_domain) == (pos[c.node].measurement, set(pos[c.node].s_domain), set(pos[c.node].t_domain)), "a measurement was changed"

@P.bounded("cyclic patterns", [FO + "StandardizedPattern.partial_order_layers"], pat_cases, "random domain relations on standardized patterns up to 6 measured nodes", quick=3, thorough=30)
def cyclic(case):
    seed, n = case
    r = random.Random(seed)
    n = min(n, 6)
    ms = [Meas(v, Measurement.XY(.1), {u for u in range(n) if u != v and r.random() < .25}, {u for u in range(n) if u != v and r.random() < .15}) for v in range(n)]
    outs = list(range(n, n + r.randrange(0, 3)))
    xs = {o: frozenset(u for u in range(n) if r.random() < .3) for o in outs if r.random() < .7}
    ins = [v for v in range(n) if r.random() < .3]
    try:
        s = O.StandardizedPattern(input_nodes=tuple(ins), output_nodes=tuple(outs), n_list=tuple(N(v) for v in [*range(n), *outs] if v not in ins), e_set=frozenset(), m_list=tuple(ms), c_dict={}, z_dict={}, x_dict=xs)
    except TypeError as e:
        raise Unfit(str(e)) from None
    want = layers_of(set(range(n)), {(d, m.node) for m in ms for d in m.s_domain | m.t_domain})
    try: got = s.partial_order_layers()
    except ValueError: got = None
    assert (got is None) == (want is None), f"{got}, expected {want}"
    if want is not None: assert list(got) == ([frozenset(outs)] if outs else []) + want[::-1]

def cor_cases(rng, tier): yield from G.seeds(rng, lambda r: r.randrange(1, 8))

@P.bounded("layers of corrections", [FCO + "_corrections_to_partial_order_layers", FCO + "XZCorrections.from_measured_nodes_mapping", FCO + "XZCorrections.generate_total_measurement_order", FCO + "XZCorrections.to_dag"], cor_cases,
           "random correction maps (valid, cyclic, foreign nodes) on open graphs up to 7 nodes", quick=6, thorough=80)
def of_corrections(case):
    seed, n = case
    r = random.Random(seed)
    og = G.opengraph(r, n, n_out=r.randrange(0, n + 1), n_in=0)
    nodes = list(og.graph.nodes); outs = frozenset(og.output_nodes); meas = [v for v in nodes if v not in outs]
    rank = {v: i for i, v in enumerate(r.sample(nodes, n))}
    kind = r.random()
    def corr():
        d = {}
        for v in meas:
            if r.random() < .6:
                s = {u for u in nodes if r.random() < .35 and (kind > .75 or u in outs or rank[u] > rank[v])}
                d[v] = s
        return d
    x, z = corr(), corr()
    foreign = max(nodes, default=0) + 5
    bad = None
    if r.random() < .1 and meas:
        x.setdefault(r.choice(meas), set()).add(foreign); bad = "value"
    if r.random() < .1:
        z[r.choice([foreign, *outs])] = set(r.sample(nodes, 1)); bad = "key"
    snap = ({k: set(v) for k, v in x.items()}, {k: set(v) for k, v in z.items()})
    rel = {(a, b) for d in (x, z) for a, bs in d.items() for b in bs}
    inner = {(a, b) for a, b in rel if a not in outs and b not in outs}
    want = None if bad else layers_of(meas, inner)
    try: got = XZCorrections.from_measured_nodes_mapping(og, x, z)
    except XZCorrectionsError: got = None
    assert (got is None) == (want is None), f"{'rejected' if got is None else 'accepted'}: {x} {z} outputs {outs} bad={bad} layers={want}"
    assert snap == (x, z), "corrections modified"
    if got is None: return None
    exp = ([outs] if outs else []) + want[::-1]
    assert list(got.partial_order_layers) == exp, f"{got.partial_order_layers} != {exp}"
    got.check_well_formed()
    order = list(got.generate_total_measurement_order())
    assert sorted(order) == sorted(meas)
    pos = {v: i for i, v in enumerate(order)}
    assert all(pos[a] < pos[b] for a, b in inner), "total order does not respect the corrections"
    assert got.is_compatible(order)
    assert set(got.to_dag().edges) == rel, "dag"

@P.bounded("flow depth", [FCO + "XZCorrections.generate_total_measurement_order"], lambda rng, tier: G.seeds(rng), "flows of random open graphs", quick=3, thorough=30)
def flows(case):
    r = random.Random(case[0])
    og = G.flow_graph(r, 2, 3)
    f = og.to_causalflow()
    lay = {v: i for i, l in enumerate(f.partial_order_layers) for v in l}
    assert sorted(lay) == sorted(og.graph.nodes) and sum(map(len, f.partial_order_layers)) == len(og.graph)
    xz = f.to_xzcorrections()
    order = list(xz.generate_total_measurement_order())
    assert [lay[v] for v in order] == sorted((lay[v] for v in order), reverse=True)
    p = xz.to_pattern()
    assert [c.node for c in p if c.kind == CommandKind.M] == order

# -- deductive units ------------------------------------------------------------------------------------------------
from gv import cutloop as CL, fsets as F
z3 = boot.z3()
L, B, I = F.Lab, F.B, F.I
Lbl, FSet = F.Lbl, F.FSet

class Card:
    """The size of the set of predecessors of v that are not processed yet, minus `delta`."""
    def __init__(self, m, v, delta=0): self.m, self.v, self.delta, self.at = m, v, delta, m.ver
    def __sub__(self, o):
        if o != 1 or self.delta: raise Unfit("count")
        return Card(self.m, self.v, 1)
    def __add__(self, o):
        if o != 1 or self.delta: raise Unfit("count")
        return Card(self.m, self.v, -1)
    def __eq__(self, o):
        if not isinstance(o, int) or o != 0 or isinstance(o, bool) or self.delta < 0: raise Unfit("count compared")
        if self.at != self.m.ver: raise Unfit("an old count")
        return self.m.zero(self.v, self.delta)
    def __ne__(self, o): return not self == o
    def __bool__(self): return not self == 0
    def __gt__(self, o):
        if o == 0: return not self == 0
        raise Unfit("count compared")
    def __le__(self, o): return not self > o
    def _no(self, *a): raise Unfit("operation on a count")
    __lt__ = __ge__ = __int__ = __index__ = __mul__ = __radd__ = __rsub__ = _no
    __hash__ = None

class Degrees:
    """A map from nodes (dom) to the number of their remaining predecessors (rem(u, v)); a change of an entry by one is the removal
    or the addition of the edge that is being processed (eng.edge), which must (must not) be there."""
    gv_kind = "degrees"
    def __init__(self, dom, rem): self.dom, self.rem, self.ver = dom, rem, 0; F.cur().lists.append(self)
    def gv_copy(self): return Degrees(self.dom, self.rem)
    def _has(self, k):
        if not isinstance(k, Lbl): raise Unfit("key")
        return F.cur().decide(self.dom(k.e))
    def __getitem__(self, k):
        if not self._has(k): raise KeyError("node")
        return Card(self, k.e)
    def get(self, k, d=None):
        if self._has(k): return Card(self, k.e)
        if d == 0 and isinstance(d, int):
            F.cur().forall(L, lambda u: z3.Not(self.rem(u, k.e))) if self.absent_means_zero else None
            return Card(self, k.e)
        return d
    absent_means_zero = False
    def zero(self, v, delta):
        eng = F.cur()
        left = (lambda u: self.rem(u, v)) if not delta else (lambda u: z3.And(self.rem(u, v), u != eng.edge[0]))
        if delta: self._edge(v)
        def no(): w = eng.label("remaining"); eng.assume(left(w))
        return eng.ask(("zero", left(F.PROBE)), lambda: eng.forall(L, lambda u: z3.Not(left(u))), no)
    def _edge(self, v, there=True):
        eng = F.cur()
        if getattr(eng, "edge", None) is None: raise Unfit("a count changes outside the loop over edges")
        eng.prove("counts: the edge being processed is counted once", z3.And(v == eng.edge[1], self.rem(*eng.edge) if there else z3.Not(self.rem(*eng.edge))))
    def __setitem__(self, k, c):
        if not isinstance(k, Lbl) or not isinstance(c, (Card, int)): raise Unfit("count")
        eng = F.cur(); rem, dom = self.rem, self.dom
        if isinstance(c, int):
            if c != 1 or isinstance(c, bool): raise Unfit("count")
            eng.prove("counts: nothing was counted before", z3.Not(rem(eng.label("u"), k.e))); self._edge(k.e, False); delta = -1
        else:
            if c.m is not self or c.at != self.ver: raise Unfit("count of another entry")
            eng.prove("counts: of the same node", c.v == k.e); delta = c.delta
            if delta: self._edge(k.e, delta > 0)
        e = eng.edge
        if delta > 0: self.rem = lambda u, v: z3.And(rem(u, v), z3.Not(z3.And(u == e[0], v == e[1])))
        elif delta < 0: self.rem = lambda u, v: z3.Or(rem(u, v), z3.And(u == e[0], v == e[1]))
        self.dom = lambda v: z3.Or(dom(v), v == k.e); self.ver += 1
    def __delitem__(self, k):
        if not self._has(k): raise KeyError("node")
        dom = self.dom; self.dom = lambda v: z3.And(dom(v), v != k.e); self.ver += 1
    def pop(self, k, *d):
        if not self._has(k):
            if d: return d[0]
            raise KeyError("node")
        c = Card(self, k.e); self.__delitem__(k); c.at = self.ver; return c
    def __contains__(self, k): return self._has(k)
    def __bool__(self): return bool(FSet(self.dom))
    def keys(self): return FSet(self.dom)
    def _no(self, *a): raise Unfit("operation on the counts")
    __iter__ = __len__ = items = values = _no
    def __getattr__(self, a): raise Unfit(f"operation on the counts: {a}")

def mkdict(x=()):
    if isinstance(x, Degrees): return x.gv_copy()
    raise Unfit("dict")

class Topo:
    """Arbitrary relation D on an arbitrary set V; state after k generations: Dn (placed nodes), Last (the last generation)."""
    def __init__(self, eng):
        self.eng = eng
        self.V, self.D = z3.Function("V", L, B), z3.Function("D", L, L, B)
        eng.forall(self.D, lambda u, v: z3.Implies(self.D(u, v), self.V(v)))
        self.first = CL.every(eng, "first", lambda u, x: z3.Not(self.D(u, x)), on=self.D)
        self.dag = Dag(self); self.edge = None; self.gens = []
        self.zero = FSet(lambda x: z3.And(self.V(x), self.first(x)))
        self.deg = Degrees(lambda x: z3.And(self.V(x), z3.Not(self.first(x))), lambda u, v: self.D(u, v)); eng.fix(self.deg); eng.edge = None

class Dag:
    def __init__(self, w): self.w = w
    def __getitem__(self, n):
        if not isinstance(n, Lbl): raise Unfit("key")
        return Children(self.w, n.e)
    def get(self, n, d=None): return self[n]
    def __getattr__(self, a): raise Unfit(f"operation on the relation: {a}")

class Generations(CL.Cut):
    """while there are nodes without unplaced predecessors"""
    label = "generations"
    def __init__(self, w): self.w = w
    def roles(self):
        w, eng = self.w, self.w.eng; V, D = w.V, w.D
        f = lambda n: z3.Function(eng.fresh(n), L, B)
        Dn, Last = w.Dn, w.Last = f("placed"), f("last"); started = w.started = z3.Bool(eng.fresh("started")); w.wit = z3.Function(eng.fresh("pred"), L, L)
        eng.forall(L, lambda x: z3.And(z3.Implies(Dn(x), V(x)), z3.Implies(Last(x), Dn(x)), z3.Implies(z3.Not(started), z3.Not(Dn(x)))))
        eng.forall(D, lambda u, x: z3.Implies(z3.And(D(u, x), Dn(x)), Dn(u)))
        w.ready = CL.every(eng, "ready", lambda u, x: z3.Implies(D(u, x), Dn(u)), on=D)
        Z = w.Z = lambda x: z3.And(V(x), z3.Not(Dn(x)), w.ready(x))
        eng.forall(L, lambda x: z3.Implies(z3.And(started, Z(x)), z3.And(D(w.wit(x), x), Last(w.wit(x)))))      # a predecessor in the last generation
        w.ready2 = CL.every(eng, "ready_next", lambda u, x: z3.Implies(D(u, x), z3.Or(Dn(u), Z(u))), on=D)
        Z2 = w.Z2 = lambda x: z3.And(V(x), z3.Not(Dn(x)), z3.Not(Z(x)), w.ready2(x))
        x, u = eng.label("x"), eng.label("u"); pre = self.pre = eng.fresh("generations")
        rest = lambda y: z3.And(V(y), z3.Not(Dn(y)), z3.Not(Z(y))); rest2 = lambda y: z3.And(rest(y), z3.Not(Z2(y)))
        left = lambda a, b: z3.And(D(a, b), z3.Not(Dn(a))); left2 = lambda a, b: z3.And(left(a, b), z3.Not(Z(a)))
        first = lambda y: z3.And(V(y), w.first(y))
        def put(dom, rem):
            def f(m): m.dom, m.rem = dom, rem
            return lambda: f
        def agree(m, dom, rem): return z3.And(m.dom(x) == dom(x), z3.Implies(dom(x), m.rem(u, x) == rem(u, x)))
        def grown(v):
            if v.prefix != pre or len(v.items) != 1: return False
            return F.conv(v.items[0]).mem(x) == Z(x)
        self.x = x
        return [CL.Role("list", "generations", lambda v: v.prefix is None and not v.items, lambda: pre, grown, lambda: pre),
                CL.Role("set", "nodes without unplaced predecessors", lambda v: v.mem(x) == first(x), lambda: Z, lambda v: v.mem(x) == Z2(x), lambda: Z),
                CL.Role("degrees", "counts of the other nodes", lambda m: agree(m, lambda y: z3.And(V(y), z3.Not(first(y))), D), put(rest, left), lambda m: agree(m, rest2, left2), put(rest, left))]
    def item(self):
        w, eng = self.w, self.w.eng; w.passes = 0
        eng.contract_for = lambda it: Placing(w, it) if isinstance(it, FSet) and not w.passes else None
    def completed(self):
        w, eng = self.w, self.w.eng; x, u = eng.label("x"), eng.label("u"); eng.cover("a generation")
        now = lambda y: z3.Or(w.Dn(y), w.Z(y))
        eng.prove("loop invariant of generations: predecessors of placed nodes are placed", z3.Implies(z3.And(w.D(u, x), now(x)), now(u)))
        eng.prove("a node of the next generation has a predecessor in this one", z3.Implies(w.Z2(x), z3.And(w.D(w.ready.wit(x), x), w.Z(w.ready.wit(x)))))
        eng.prove("a generation is new", z3.Implies(w.Z(x), z3.Not(w.Dn(x))))
        eng.prove("the predecessors of a generation belong to previous ones", z3.Implies(z3.And(w.Z(x), w.D(u, x)), w.Dn(u)))

class Placing(CL.Cut):
    """for every node of the generation (S: those visited)"""
    label = "nodes of a generation"
    def __init__(self, w, it): self.w, self.it = w, it; w.passes += 1
    def roles(self):
        w, eng = self.w, self.w.eng; D, Dn, Z = w.D, w.Dn, w.Z
        S = w.S = z3.Function(eng.fresh("visited"), L, B); x, u = eng.label("x"), eng.label("u")
        eng.forall(L, lambda y: z3.Implies(S(y), Z(y)))
        eng.prove("the whole generation is visited", self.it.mem(x) == Z(x))
        n = w.n = eng.label("node")
        def state(vis):
            r = CL.every(eng, "ready_s", lambda a, y: z3.Implies(D(a, y), z3.Or(Dn(a), vis(a))), on=D)
            zero = lambda y: z3.And(w.V(y), z3.Not(Dn(y)), z3.Not(Z(y)), r(y))
            return zero, (lambda y: z3.And(w.V(y), z3.Not(Dn(y)), z3.Not(Z(y)), z3.Not(zero(y)))), (lambda a, y: z3.And(D(a, y), z3.Not(Dn(a)), z3.Not(vis(a))))
        w.state = state
        st = {"init": state(lambda y: z3.BoolVal(False)), "mid": state(S), "end": state(lambda y: z3.Or(S(y), y == n)), "after": state(Z)}
        self.st = st; w.before, w.afterwards = st["mid"], st["end"]
        return roles_of(eng, st)
    def item(self):
        w, eng = self.w, self.w.eng; eng.assume(z3.And(w.Z(w.n), z3.Not(w.S(w.n)))); return Lbl(w.n)

def roles_of(eng, st):
    x, u = eng.label("x"), eng.label("u")
    eqs = lambda k: lambda v: v.mem(x) == st[k][0](x)
    def eqd(k):
        _, dom, rem = st[k]
        return lambda m: z3.And(m.dom(x) == dom(x), z3.Implies(dom(x), m.rem(u, x) == rem(u, x)))
    def put(k):
        def f(m): m.dom, m.rem = st[k][1], st[k][2]
        return lambda: f
    return [CL.Role("set", "nodes whose predecessors are all visited", eqs("init"), lambda: st["mid"][0], eqs("end"), lambda: st["after"][0]),
            CL.Role("degrees", "counts", eqd("init"), put("mid"), eqd("end"), put("after"))]

class Children(CL.Cut):
    """for every child of a node (T: those visited)"""
    label = "children"
    def __init__(self, w, n): self.w, self.node = w, n
    def roles(self):
        w, eng = self.w, self.w.eng; D, Dn, S, n = w.D, w.Dn, w.S, w.n
        eng.prove("the children of the node are visited", self.node == n)
        T = w.T = z3.Function(eng.fresh("seen"), L, B); c = w.c = eng.label("child")
        eng.forall(L, lambda y: z3.Implies(T(y), D(n, y)))
        def state(seen):
            r = CL.every(eng, "ready_t", lambda a, y: z3.Implies(D(a, y), z3.Or(Dn(a), S(a), z3.And(a == n, seen(y)))), on=D)
            zero = lambda y: z3.And(w.V(y), z3.Not(Dn(y)), z3.Not(w.Z(y)), r(y))
            return zero, (lambda y: z3.And(w.V(y), z3.Not(Dn(y)), z3.Not(w.Z(y)), z3.Not(zero(y)))), (lambda a, y: z3.And(D(a, y), z3.Not(Dn(a)), z3.Not(S(a)), z3.Not(z3.And(a == n, seen(y)))))
        return roles_of(eng, {"init": w.before, "mid": state(T), "end": state(lambda y: z3.Or(T(y), y == c)), "after": w.afterwards})
    def item(self):
        w, eng = self.w, self.w.eng; eng.assume(z3.And(w.D(w.n, w.c), z3.Not(w.T(w.c)))); eng.edge = (w.n, w.c); return Lbl(w.c)

@P.proof("topological generations of an arbitrary relation", [FL + "compute_topological_generations"], "z3")
def topo_unit(ob):
    import importlib
    f = need(importlib.import_module("graphix.flow._partial_order"), "compute_topological_generations")
    def h(eng):
        w = Topo(eng); eng.ws = w
        eng.whiles = {"compute_topological_generations/0": lambda: Generations(w)}
        r = CL.lift(f, dict=mkdict)(w.dag, w.deg, w.zero)
        x = eng.label("left")
        eng.prove("the argument is not modified", w.deg.ver == 0)
        if r is None:
            eng.cover("cycle")
            s = w.ready.wit(x); out = lambda y: z3.And(w.V(y), z3.Not(w.Dn(y)))
            eng.prove_exists("a node is left", L, out)
            eng.prove("every node that is left has a predecessor that is not placed, hence they contain a cycle", z3.Implies(out(x), z3.And(w.D(s, x), z3.Not(w.Dn(s)))))
        else:
            eng.cover("order")
            eng.prove("the generations are returned in order", isinstance(r, CL.GList) and not r.items and r.prefix is not None)
            eng.prove("every node is placed", z3.Implies(w.V(x), w.Dn(x)))
    CL.attempt(ob, "compute_topological_generations", h).close(["cycle", "order", "a generation"])

# the relation is built from corrections or from domains
class Relation:
    """node -> set of nodes, filled by loops (a dictionary or defaultdict): edges(u, v); keys: predicate, or None (any key)"""
    gv_kind = "relation"
    def __init__(self, edges, keys=None): self.edges, self.keys, self.ver = edges, keys, 0; F.cur().lists.append(self)
    def __getitem__(self, u):
        if not isinstance(u, Lbl): raise Unfit("key")
        if self.keys is not None and not F.cur().decide(self.keys(u.e)): raise KeyError("node")
        return Succ(self, u.e)
    def __getattr__(self, a): raise Unfit(f"operation on the relation: {a}")

class Succ:
    gv_set_like = True
    def __init__(self, r, u): self.r, self.u = r, u
    def contains(self, x): return F.SBool(self.r.edges(self.u, x.e))
    def __contains__(self, x): return F.cur().decide(self.r.edges(self.u, x.e))
    def add(self, x):
        e, u = self.r.edges, self.u; self.r.edges = lambda a, b: z3.Or(e(a, b), z3.And(a == u, b == x.e)); self.r.ver += 1
        F.cur().edge = (u, x.e)
    def __getattr__(self, a): raise Unfit(f"set operation {a}")

def exists(eng, name, rel):
    """E(v) <=> there is u with rel(u, v); rel = (z3 functions it is made of, formula)"""
    fs, f = rel
    if z3.is_false(z3.simplify(f(eng.label("p"), eng.label("q")))): return lambda v: z3.BoolVal(False)
    E = z3.Function(eng.fresh(name), L, B); W = z3.Function(eng.fresh(name + "_by"), L, L)
    eng.forall(L, lambda v: z3.Implies(E(v), f(W(v), v)))
    for g, get in fs: eng.forall(g, lambda *a, get=get: z3.Implies(f(*get(*a)), E(get(*a)[1])))
    return E

class Build:
    """ghost: the pairs recorded so far; `fs`: the relations they come from, as (function, arguments -> (u, v))"""
    def __init__(self, eng, fs): self.eng, self.fs, self.base, self.depth, self.defs = eng, fs, (lambda u, v: z3.BoolVal(False)), 0, []
    def passed(self, after):
        """the pairs recorded by a completed loop get a name; their definition is only used in the end"""
        Bk = z3.Function(self.eng.fresh("recorded"), L, L, B); self.defs.append((Bk, after)); self.fs = [*self.fs, (Bk, lambda u, v: (u, v))]
        self.base = Bk; return Bk
    def unfold(self):
        for Bk, after in self.defs:
            for g, get in self.fs: self.eng.forall(g, lambda *a, get=get, Bk=Bk, after=after: Bk(*get(*a)) == after(*get(*a)))
    def roles(self, st):
        eng = self.eng; x, u = eng.label("x"), eng.label("u")
        memo = {}
        class Lazy:
            def __getitem__(_, k):
                if k not in memo:
                    st[k](x, x); memo[k] = exists(eng, "counted", (self.fs, st[k]))
                return memo[k]
        E = Lazy()
        def put_r(k):
            def f(m): m.edges = st[k]
            return lambda: f
        def put_d(k):
            def f(m): m.dom, m.rem = (lambda v: E[k](v)), st[k]
            return lambda: f
        return [CL.Role("relation", "recorded pairs", lambda m: m.edges(u, x) == st["init"](u, x), put_r("mid"), lambda m: m.edges(u, x) == st["end"](u, x), put_r("after")),
                CL.Role("degrees", "counts", lambda m: z3.And(m.dom(x) == E["init"](x), m.rem(u, x) == st["init"](u, x)), put_d("mid"), lambda m: z3.And(m.dom(x) == E["end"](x), m.rem(u, x) == st["end"](u, x)), put_d("after"))]

class Outer(CL.Cut):
    """for every entry (S: those visited); rel(u, v): the pairs of this mapping, key(u, v): their entry"""
    label = "entries"
    def __init__(self, w, rel, key, make): self.w, self.rel, self.key, self.make = w, rel, key, make
    def roles(self):
        w, eng = self.w, self.w.eng; S = z3.Function(eng.fresh("visited"), L, B); k = self.k = eng.label("entry"); base, rel, key = w.base, self.rel, self.key
        w.cur = self; self.S = S
        w.mid = lambda u, v: z3.Or(base(u, v), z3.And(S(key(u, v)), rel(u, v)))
        w.end = lambda u, v: z3.Or(base(u, v), z3.And(z3.Or(S(key(u, v)), key(u, v) == k), rel(u, v)))
        self.full = lambda u, v: z3.Or(base(u, v), rel(u, v)); self.named = None
        def after(u, v):
            if self.named is None: self.named = w.passed(self.full)
            return self.named(u, v)
        self.after = after
        return w.roles({"init": base, "mid": w.mid, "end": w.end, "after": self.after})
    def item(self):
        w = self.w; w.depth = 1; w.eng.assume(z3.Not(self.S(self.k))); return self.make(self.k)
    def completed(self): self.w.eng.cover("an entry is recorded")
    def ended(self): x = self.w.eng.label("any"); self.after(x, x)

class Inner(CL.Cut):
    """for every node of an entry (T: those visited)"""
    label = "nodes of an entry"
    def __init__(self, w, it): self.w, self.it = w, it
    def roles(self):
        w, eng = self.w, self.w.eng; o = w.cur; T = self.T = z3.Function(eng.fresh("seen"), L, B); c = self.c = eng.label("member"); mem = self.it.mem; mid = w.mid
        other = (lambda u, v: v) if o.key(1, 2) == 1 else (lambda u, v: u)
        part = lambda vis: lambda u, v: z3.Or(mid(u, v), z3.And(o.key(u, v) == o.k, vis(other(u, v)), o.rel(u, v)))
        eng.forall(L, lambda y: z3.Implies(T(y), mem(y)))
        return w.roles({"init": mid, "mid": part(T), "end": part(lambda y: z3.Or(T(y), y == c)), "after": part(mem)})
    def item(self):
        self.w.eng.assume(z3.And(self.it.mem(self.c), z3.Not(self.T(self.c)))); return Lbl(self.c)

def generations_of(eng, w):
    """contract of compute_topological_generations"""
    def f(dag, deg, zero):
        if not isinstance(dag, Relation) or not isinstance(deg, Degrees): raise Unfit("arguments")
        w.unfold(); x, u = eng.label("x"), eng.label("u"); D = dag.edges; z = F.conv(zero).mem
        eng.prove("layering: the counts are those of the relation", z3.And(z3.Implies(deg.dom(x), deg.rem(u, x) == D(u, x)), z3.Implies(D(u, x), deg.dom(x))))
        eng.prove("layering: the first nodes have no predecessor", z3.Implies(z(x), z3.And(z3.Not(D(u, x)), z3.Not(deg.dom(x)))))
        E = exists(eng, "has_pred", (w.fs, D)); eng.prove("layering: counts are not zero", z3.Implies(deg.dom(x), E(x)))
        w.V = V = lambda y: z3.Or(z(y), deg.dom(y)); w.D = D
        if eng.choose(): w.order = False; return None
        w.order = True; n = w.n = z3.Int("n_generations"); lev = w.lev = eng.level = z3.Function("level", L, I); m = z3.Function("member", I, L); p = w.p = z3.Function("previous", L, L)
        eng.assume(n >= 0)
        eng.forall(L, lambda y: z3.Implies(V(y), z3.And(lev(y) >= 0, lev(y) < n, z3.Implies(lev(y) > 0, z3.And(D(p(y), y), lev(p(y)) == lev(y) - 1)))))
        for g, get in w.fs: eng.forall(g, lambda *a, get=get: z3.Implies(D(*get(*a)), z3.And(V(get(*a)[0]), V(get(*a)[1]), lev(get(*a)[0]) < lev(get(*a)[1]))))
        eng.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(V(m(k)), lev(m(k)) == k)))
        return CL.Stack([("seg", n, lambda k, y: z3.And(V(y), lev(y) == k), False)])
    return f

def check_layers(eng, w, r, nodes, out, has_out, rel):
    """The result is the outputs (if any), then the nodes by decreasing depth in the relation"""
    if not isinstance(r, (CL.Stack, tuple)): raise Unfit("layers")
    st = r if isinstance(r, CL.Stack) else CL.Stack([("one", x) for x in r])
    x, u = eng.label("x"), eng.label("u"); k = z3.Int(eng.fresh("k")); sh = 1 if has_out else 0
    eng.assume(k >= 0); eng.guide = None
    eng.prove("every node that is not an output is placed", w.V(x) == z3.And(nodes(x), z3.Not(out(x))))
    eng.prove("the relation is that of the dependencies", w.D(u, x) == rel(u, x))
    eng.prove("number of layers", st.gv_len().e == w.n + sh)
    want = z3.Or(z3.And(k == 0, out(x)) if has_out else z3.BoolVal(False), z3.And(k >= sh, k < w.n + sh, w.V(x), w.lev(x) == w.n - 1 - (k - sh)))
    eng.prove("layers by decreasing depth, outputs first", st.at(k, x) == want)

@P.proof("layers of arbitrary corrections", [FCO + "_corrections_to_partial_order_layers"], "z3")
def cor_unit(ob):
    f = need(FC_, "_corrections_to_partial_order_layers")
    def h(eng):
        node, out = z3.Function("node", L, B), z3.Function("out", L, B)
        doms = [z3.Function(p + "dom", L, B) for p in "xz"]; cs = [z3.Function(p + "corr", L, L, B) for p in "xz"]
        eng.forall(L, lambda x: z3.Implies(out(x), node(x)))
        same = lambda u, v: (u, v)
        w = Build(eng, [(c, same) for c in cs]); maps = [F.FMap(d, lambda e, c=c: FSet(lambda x: c(e, x))) for d, c in zip(doms, cs)]
        rels = [lambda u, v, d=d, c=c: z3.And(d(u), c(u, v), z3.Not(out(u)), z3.Not(out(v))) for d, c in zip(doms, cs)]
        has = eng.choose()
        if has: eng.assume(out(eng.label("output")))
        else: eng.forall(L, lambda x: z3.Not(out(x)))
        def contract(it):
            for m, r in zip(maps, rels):
                if isinstance(it, F.FItems) and it.m is m: return Outer(w, r, lambda u, v: u, lambda k, m=m: entry(m, k))
            if isinstance(it, FSet): return Inner(w, it)
        def entry(m, k): eng.assume(m.dom0(k)); return Lbl(k), m.val0(k)
        eng.contract_for = contract; eng.edge = None
        import types
        og = types.SimpleNamespace(output_nodes=F.FSeq(out), graph=types.SimpleNamespace(nodes=FSet(node)))
        empty = lambda a, b: z3.BoolVal(False)
        env = dict(defaultdict=lambda t: Relation(empty), gv_dict=lambda: Degrees(lambda v: z3.BoolVal(False), empty), compute_topological_generations=generations_of(eng, w))
        try: r = CL.lift(f, **env)(og, *maps)
        except FC_.XZCorrectionsGenericError as e:
            if e.reason.name == "ClosedLoop": eng.prove("a cycle is reported", not w.order); eng.cover("cycle")
            else:
                eng.cover("foreign"); eng.prove("the reason is known", e.reason.name == "IncorrectValues")
                eng.prove_exists("a corrected node does not exist", L, lambda x: z3.And(w.V(x), z3.Not(node(x))))
            return
        eng.cover("layers"); eng.prove("no cycle", w.order)
        check_layers(eng, w, r, node, out, has, lambda u, v: z3.Or(*[q(u, v) for q in rels]))
    CL.attempt(ob, "_corrections_to_partial_order_layers", h).close(["cycle", "foreign", "layers", "an entry is recorded"])

class CmdList(F.FSeq):
    """An arbitrary list of commands on distinct nodes (mem), make(node) -> command"""
    def __init__(self, mem, make): super().__init__(mem); self.make = make
    def gv_iter(self, early=True): raise Unfit("a loop over commands without a contract")
    def gv_map(self, kind, cond, f):
        k = F.cur().label("cmd")
        if cond is not None or not (isinstance(v := f(self.make(k)), Lbl) and v.e is k): raise Unfit("a function of commands")
        return F.FSeq(self.mem) if kind == "list" else FSet(self.mem, kind == "set")

@P.proof("layers of arbitrary standardized patterns", [FO + "StandardizedPattern.partial_order_layers"], "z3")
def pat_unit(ob):
    import types
    def h(eng):
        f = lambda n, *s: z3.Function(n, *(s or (L,)), B)
        inp, prep, out, meas = f("inp"), f("prepared"), f("out"), f("measured")
        node = lambda x: z3.Or(inp(x), prep(x))
        doms = {p: f(p + "dom", L, L) for p in ("s", "t", "x", "z")}; keys = {p: f(p + "keys") for p in "xz"}      # dom(k, d): d belongs to the domain of k
        eng.forall(L, lambda x: z3.And(z3.Implies(out(x), node(x)), meas(x) == z3.And(node(x), z3.Not(out(x))), *[z3.Implies(keys[p](x), node(x)) for p in "xz"]))
        for d in doms.values(): eng.forall(d, lambda k, x, d=d: z3.Implies(d(k, x), node(x)))
        swap = lambda k, d: (d, k)
        w = Build(eng, [(d, swap) for d in doms.values()])
        ok = lambda u, v: z3.And(z3.Not(out(u)), z3.Not(out(v)))
        rel_m = lambda u, v: z3.And(meas(v), z3.Or(doms["s"](v, u), doms["t"](v, u)), ok(u, v))
        rel = {p: (lambda u, v, p=p: z3.And(keys[p](v), doms[p](v, u), ok(u, v))) for p in "xz"}
        dset = lambda p, k: FSet(lambda x: doms[p](k, x))
        maps = {p: F.FMap(keys[p], lambda e, p=p: dset(p, e)) for p in "xz"}
        has = eng.choose()
        if has: eng.assume(out(eng.label("output")))
        else: eng.forall(L, lambda x: z3.Not(out(x)))
        ms = CmdList(meas, lambda k: types.SimpleNamespace(node=Lbl(k), s_domain=dset("s", k), t_domain=dset("t", k), kind=CommandKind.M))
        def entry(m, k): eng.assume(m.dom0(k)); return Lbl(k), m.val0(k)
        def mcmd(k): eng.assume(meas(k)); return ms.make(k)
        def contract(it):
            if it is ms: return Outer(w, rel_m, lambda u, v: v, mcmd)
            for p, m in maps.items():
                if isinstance(it, F.FItems) and it.m is m: return Outer(w, rel[p], lambda u, v: v, lambda k, m=m: entry(m, k))
            if isinstance(it, FSet): return Inner(w, it)
        eng.contract_for = contract; eng.edge = None
        empty = lambda a, b: z3.BoolVal(False)
        def dictcomp(it, cond, key, val):
            k = Lbl(eng.label("key")); mem = F.conv(it).mem
            if cond is not None or key(k) is not k or F.conv(val(k)).mem is None or not z3.is_false(z3.simplify(F.conv(val(k)).mem(F.PROBE))): raise Unfit("initial relation")
            return Relation(empty, mem)
        eng.dictcomp = dictcomp
        self = F.Obj(O.StandardizedPattern, input_nodes=F.FSeq(inp), output_nodes=F.FSeq(out), n_list=CmdList(prep, lambda k: types.SimpleNamespace(node=Lbl(k))), m_list=ms, z_dict=maps["z"], x_dict=maps["x"])
        env = dict(gv_dict=lambda: Degrees(lambda v: z3.BoolVal(False), empty), compute_topological_generations=generations_of(eng, w))
        try: r = CL.lift(O.StandardizedPattern.partial_order_layers, **env)(self)
        except ValueError: eng.prove("a cycle is reported", not w.order); eng.cover("cycle"); return
        eng.cover("layers"); eng.prove("no cycle", w.order)
        check_layers(eng, w, r, node, out, has, lambda u, v: z3.Or(rel_m(u, v), *[q(u, v) for q in rel.values()]))
    CL.attempt(ob, "partial_order_layers", h).close(["cycle", "layers", "an entry is recorded"])

class Lab:
    """An arbitrary node."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

@P.proof("orders read off the layers", [FP + "Pattern._measurement_order_depth", FP + "Pattern.sort_measurement_commands", FCO + "XZCorrections.generate_total_measurement_order"], "opaque nodes; layers by the contract of their construction; up to 4 layers of up to 3 nodes")
def orders_unit(ob):
    import types
    from gv.extract import raw
    toks = [[Lab(f"{'abcd'[i]}{j}") for j in range(3)] for i in range(4)]
    outs = [Lab("o0"), Lab("o1")]
    for no in range(3):
        for sizes in (s for k in range(5) for s in itertools.product((1, 2, 3), repeat=k)):
            layers = tuple(frozenset(toks[i][:n]) for i, n in enumerate(sizes))
            full = ((frozenset(outs[:no]),) if no else ()) + layers
            def good(order):
                if sorted(map(repr, order)) != sorted(repr(v) for l in layers for v in l): return False
                rank = {v: i for i, l in enumerate(layers) for v in l}
                return all(rank[x] >= rank[y] for x, y in zip(order, order[1:]))
            p = types.SimpleNamespace(partial_order_layers=lambda: full, output_nodes=outs[:no])
            ob.check(f"pattern with {no} outputs, layers of sizes {sizes}: every measured node once, later layers later", good(list(raw(Pattern._measurement_order_depth)(p))))
            x = types.SimpleNamespace(partial_order_layers=full, og=types.SimpleNamespace(output_nodes=outs[:no], graph=types.SimpleNamespace(nodes=[*outs[:no], *(v for l in layers for v in l)])))
            ob.check(f"corrections with {no} outputs, layers of sizes {sizes}: every measured node once, later layers later", good(list(raw(XZCorrections.generate_total_measurement_order)(x))))
    ms = {v: Meas(v, Measurement.XY(0.1 * i)) for i, v in enumerate(toks[0])}
    for order in itertools.permutations(toks[0]):
        p = types.SimpleNamespace(measurement_commands=lambda: ms)
        got = list(raw(Pattern.sort_measurement_commands)(p, list(order)))
        ob.check(f"sorting to {order}: the commands of these nodes, in this order", len(got) == 3 and all(g is ms[v] for g, v in zip(got, order)))


@P.proof("layers and reordering: composition", [FP + "Pattern.partial_order_layers", FP + "Pattern.parallelize_pattern", FP + "Pattern._reorder_pattern", FCO + "XZCorrections.from_measured_nodes_mapping", FCO + "XZCorrections.to_dag"], "terms over the contracts of the callees; every role of a key")
def composition_unit(ob):
    from gv.chains import Ch, Me
    from gv.extract import raw, rebind
    from graphix import pattern as gpat
    from graphix.flow import core as fcore
    from graphix.flow.exceptions import XZCorrectionsGenericError, XZCorrectionsGenericErrorReason as Why
    opt = Ch("optimization"); me = Me()
    ob.structural("layers of a pattern: those of its standard form", rebind(gpat.Pattern.partial_order_layers, optimization=opt)(me) == opt.StandardizedPattern.from_pattern(me).partial_order_layers() and not me.gv_set)
    for standard in (False, True):
        log = []; st = [standard]
        class Par(Me):
            def is_standard(self, strict=False): return st[0]
            def standardize(self): log.append("standardize"); st[0] = True
            def sort_measurement_commands(self, order): log.append("sort"); return ("sorted", order, st[0])
            def _measurement_order_depth(self): log.append("depth"); return ("depth", st[0])
            def _reorder_pattern(self, ms): log.append(("reorder", ms))
        raw(gpat.Pattern.parallelize_pattern)(Par())
        ob.structural(f"parallelization, standard={standard}: the standard form, measured by increasing depth", log[-1] == ("reorder", ("sorted", ("depth", True), True)) and log.count("standardize") == (not standard) and len(log) == 3 + (not standard))
    ms = ["m0", "m1"]; me = Me(); rebind(gpat.Pattern._reorder_pattern, optimization=opt, dataclasses=Ch("dataclasses"))(me, ms)
    new = Ch("dataclasses").replace(opt.StandardizedPattern.from_pattern(me), m_list=tuple(ms)).to_space_optimal_pattern()
    ob.structural("reordering: the standard form with the measurements in this order", me.gv_set == {"_Pattern__seq": getattr(new, "_Pattern__seq")})
    class Refused(Exception): pass
    for nodes in itertools.product((False, True), (None, 0, 1, 2, 3), repeat=2):
        og = types.SimpleNamespace(measurements={f"n{i}": "m" for i in (0, 1) if nodes[2 * i]})
        x = {f"n{i}": {f"x{i}"} for i in (0, 1) if (nodes[2 * i + 1] or 0) & 1}; z = {f"n{i}": {f"z{i}"} for i in (0, 1) if (nodes[2 * i + 1] or 0) & 2}
        none = all(nodes[2 * i + 1] is None for i in (0, 1)); bad = any(nodes[2 * i + 1] and not nodes[2 * i] for i in (0, 1))
        for layers in ("layers", None):
            def order(*a):
                if layers is None: raise Refused
                return ("layers", *a)
            made = []
            f = rebind(XZCorrections.from_measured_nodes_mapping, _corrections_to_partial_order_layers=order, XZCorrections=lambda *a: made.append(a) or "made")
            try: got = f(og, *(() if none else (x, z)))
            except XZCorrectionsGenericError as e: got = e.reason
            except Refused: got = "refused"
            want = Why.IncorrectKeys if bad else "refused" if layers is None else "made"
            ob.structural(f"corrections of {nodes}, layers {layers}: {'refused' if bad else 'accepted if they can be ordered'}", got == want and made == ([(og, x, z, ("layers", og, x, z))] if want == "made" else []))
    c = Ch(("self",)); ob.structural("dag of corrections: that of its mappings", rebind(XZCorrections.to_dag, _corrections_to_dag=Ch("dag"))(c) == Ch("dag")(c.x_corrections, c.z_corrections))
