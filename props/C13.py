from __future__ import annotations
import itertools, random
import networkx as nx
from gv import boot, flowspec as S, gen as G  # noqa: F401
from gv import cutloop as CL, fsets as F
from gv.core import Prop, Unfit, need
from gv.fsets import FMap, FSeq, FSet, I, Lab, Lbl, SEnum
from graphix.flow import _find_cflow
from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.flow.exceptions import FlowError
from graphix.fundamentals import Axis, Plane
from graphix.measurements import BlochMeasurement, Measurement
from graphix.opengraph import OpenGraph

FG, FC, FOG = "graphix/flow/_find_gpflow.py:", "graphix/flow/_find_cflow.py:", "graphix/opengraph.py:"
P = Prop("C13", "proof",
    "Causal flow: proved for every open graph (sound, complete, earliest layers) by loop invariants over arbitrary node sets. The algebraic search behind gflow and Pauli flow: the demand matrices are proved to state the definition node by node, every correction matrix returned is proved to be a right inverse of the flow demands "
    "(block algebra over the contracts of C09, whatever change of basis was found), layers are the generations of the ordering matrix and correction sets its columns; so what is found is sound, by the published theorem. Completeness of the general case (the update of the row echelon form): existence, and the maximally delayed layers, are compared with a brute-force greedy construction over all correction sets written from the definitions "
    "(exhaustive over correction sets, graphs up to 6 nodes); what is returned is judged by the independent definitions of C12.", [], [])

# -- causal flow ---------------------------------------------------------------------------------------------------
z3 = boot.z3(); B = z3.BoolSort()
PLANES = [Plane.XY, Plane.XZ, Plane.YZ]
def Sk(eng, n, *so): return z3.Function(eng.fresh(n), *so)

class World:
    """An arbitrary open graph: nodes V, symmetric edges E, inputs, outputs, planes; optionally some causal flow (g, L) of it."""
    def __init__(self, eng, flow):
        self.eng, self.flow = eng, flow; u = lambda n: Sk(eng, n, Lab, B)
        self.V, self.inp, self.out, self.E = u("node"), u("input"), u("output"), Sk(eng, "edge", Lab, Lab, B); self.plane = Sk(eng, "plane", Lab, I)
        V, E = self.V, self.E
        eng.forall(Lab, lambda x: z3.And(z3.Implies(self.inp(x), V(x)), z3.Implies(self.out(x), V(x)), self.plane(x) >= 0, self.plane(x) < 3))
        eng.forall(E, lambda x, y: z3.Implies(E(x, y), z3.And(V(x), V(y), E(y, x))))
        self.oc = lambda x: z3.And(V(x), z3.Not(self.out(x)))
        self.has_out = eng.choose()
        if self.has_out: o = eng.label("an output"); eng.assume(self.out(o))
        else: eng.forall(Lab, lambda x: z3.Not(self.out(x)))
        eng.know("nonempty", self.has_out, self.out(F.PROBE))
        if flow:
            g, L = self.g, self.L = Sk(eng, "g", Lab, Lab), Sk(eng, "L", Lab, I); oc = self.oc
            eng.forall(Lab, lambda x: z3.And(z3.Implies(V(x), L(x) >= 0), z3.Implies(oc(x), z3.And(self.plane(x) == 0, V(g(x)), z3.Not(self.inp(g(x))), E(x, g(x)), L(g(x)) < L(x)))))
            k = self.k = Sk(eng, "corrected by", Lab, Lab)      # g is injective: two nodes with the same corrector would each be measured before the other
            eng.forall(Lab, lambda x: z3.Implies(oc(x), k(g(x)) == x)); eng.forall(E, lambda p, y: z3.Implies(z3.And(oc(k(p)), g(k(p)) == p, E(p, y), y != k(p)), L(y) < L(k(p))))
    # the contract of the outer loop: after j rounds, C corrected at the levels lev by f (h: the node that a corrector corrects), K available as correctors
    def rounds(self, C, K, lev, f, h, j):
        V, E, inp, out = self.V, self.E, self.inp, self.out; f_ = f
        inv = {
            "levels": (1, lambda x: z3.And(z3.Implies(C(x), z3.And(V(x), 0 <= lev(x), lev(x) <= j, (lev(x) == 0) == out(x))), z3.Implies(out(x), C(x)), z3.Implies(K(x), z3.And(C(x), z3.Not(inp(x)))), z3.BoolVal(True) if self.has_out else z3.Not(C(x)))),
            "correctors": (1, lambda x: z3.Implies(z3.And(C(x), z3.Not(out(x))), z3.And(C(f_(x)), z3.Not(inp(f_(x))), E(x, f_(x)), lev(f_(x)) < lev(x), h(f_(x)) == x))),
            "neighbours of correctors": (2, lambda p, y: z3.Implies(z3.And(C(h(p)), z3.Not(out(h(p))), f_(h(p)) == p, E(p, y), y != h(p)), z3.And(C(y), lev(y) < lev(h(p))))),
            "used correctors": (2, lambda x, y: z3.Implies(z3.And(C(x), z3.Not(inp(x)), z3.Not(K(x)), E(x, y)), C(y)))}
        if self.flow: inv["no later than in any flow"] = (1, lambda x: z3.And(z3.Implies(z3.And(V(x), self.L(x) <= j), C(x)), z3.Implies(C(x), lev(x) <= self.L(x))))
        return inv

class Graph:
    def __init__(self, w): self.nodes = FSet(w.V)
    def __getattr__(self, a): raise Unfit(f"graph attribute {a}")
class Meas:
    def __init__(self, w, e): self.w, self.e = w, e
    def to_plane(self): return SEnum(self.w.plane(self.e), PLANES)
    def __getattr__(self, a): raise Unfit(f"measurement attribute {a}")
class OG:
    def __init__(self, w):
        self.w = w; self.graph = Graph(w); self.input_nodes, self.output_nodes = FSeq(w.inp), FSeq(w.out); self.measurements = FMap(w.oc, lambda e: Meas(w, e))
    def neighbors(self, s):
        m = z3.simplify(F.conv(s).mem(F.PROBE))
        if not (z3.is_eq(m) and any(a.eq(F.PROBE) for a in m.children())): raise Unfit("neighbours of several nodes")
        p = [a for a in m.children() if not a.eq(F.PROBE)][0]; return FSet(lambda x: self.w.E(p, x), True)
    def __getattr__(self, a): raise Unfit(f"open graph attribute {a}")

class Planes(CL.Cut):
    label = "loop over the measurements"
    def __init__(self, w): self.w = w
    def item(self): e = self.e = self.w.eng.label("measured"); self.w.eng.assume(self.w.oc(e)); return Meas(self.w, e)
    def completed(self): self.w.eng.prove("measurements in other planes are rejected", self.w.plane(self.e) == 0)
    def ended(self): self.w.eng.forall(Lab, lambda x: z3.Implies(self.w.oc(x), self.w.plane(x) == 0))

def put(dom, val):
    def f(v): v.dom0, v.val0, v.w = dom, lambda e: FSet(lambda y: y == val(e)), []
    return f
def value_is(v, x, want):
    s = v.val(x)
    if not isinstance(s, FSet): raise Unfit("value of a correction function")
    y = F.cur().label("y"); return s.mem(y) == (y == want)

class Candidates(CL.Cut):
    """each candidate with exactly one uncorrected neighbour corrects it"""
    label = "loop over the candidates"
    def __init__(self, o):
        self.o = o; eng = self.eng = o.eng; K, C, E = o.K, o.C, o.w.E; L = lambda n: Sk(eng, n, Lab, Lab)
        # one(p): p in K has a single uncorrected neighbour, tgt(p)
        one, tgt, u, v = Sk(eng, "has one", Lab, B), L("target"), L("first"), L("second"); o.one, o.corr = one, lambda p, q: z3.And(one(p), q == tgt(p), K(p), E(p, q), z3.Not(C(q))); self.tgt, self.u, self.v = tgt, u, v
        eng.forall(Lab, lambda p: z3.Implies(one(p), z3.And(K(p), E(p, tgt(p)), z3.Not(C(tgt(p))))))
        eng.forall(E, lambda p, y: z3.Implies(z3.And(K(p), E(p, y), z3.Not(C(y))), z3.If(one(p), y == tgt(p), z3.And(E(p, u(p)), E(p, v(p)), z3.Not(C(u(p))), z3.Not(C(v(p))), u(p) != v(p)))))
    def roles(self):
        o, eng = self.o, self.eng; Z = self.Z = lambda n: Sk(eng, n, Lab, B)
        self.N, self.R, self.by = Z("newly corrected"), Z("new correctors"), Sk(eng, "by", Lab, Lab); N, R, by = self.N, self.R, self.by; x = eng.label("x")
        corr, dom0, f0 = o.corr, o.dom, o.f
        eng.forall(Lab, lambda x: z3.Implies(N(x), corr(by(x), x)))
        none = lambda v: z3.Not(v.mem(x))
        new = lambda v: v.mem(x) == z3.Or(N(x), corr(self.p, x))
        def m_init(v):
            e = v.dom(x) == dom0(x); return z3.And(e, z3.Implies(dom0(x), value_is(v, x, f0(x))))
        val = lambda e: z3.If(N(e), by(e), f0(e)); dom = lambda e: z3.Or(dom0(e), N(e))
        def m_end(v): return z3.And(v.dom(x) == z3.Or(dom(x), corr(self.p, x)), z3.Implies(v.dom(x), value_is(v, x, z3.If(corr(self.p, x), self.p, val(x)))))
        return [CL.Role("set", "newly corrected nodes", none, lambda: N, new, lambda: N),
                CL.Role("set", "new correctors", none, lambda: R, lambda v: v.mem(x) == z3.Or(R(x), z3.And(x == self.p, o.one(x))), lambda: R), CL.Role("set", "layer", none, lambda: N, new, lambda: N),
                CL.Role("map", "correction function", m_init, lambda: put(dom, val), m_end, lambda: put(dom, val))]
    def item(self): p = self.p = self.eng.label("candidate"); self.eng.assume(self.o.K(p)); return Lbl(p)
    def completed(self): self.eng.covered.add("a candidate")
    def ended(self):
        o, eng, N, R = self.o, self.eng, self.N, self.R
        eng.forall(Lab, lambda p: z3.Implies(o.one(p), N(self.tgt(p)))); eng.forall(Lab, lambda x: R(x) == z3.And(o.K(x), o.one(x)))
        o.N, o.R, o.by, o.tgt, o.u, o.v = N, R, self.by, self.tgt, self.u, self.v

class Rounds(CL.Cut):
    label = "loop over the rounds"
    def __init__(self, w): self.w = w; self.eng = w.eng
    def roles(self):
        w, eng = self.w, self.eng; w.outer = self; E = w.E; x = eng.label("x"); Z = lambda n: Sk(eng, n, Lab, B)
        C, K, lev, f, h = self.C, self.K, self.lev, self.f, self.h = Z("corrected"), Z("candidates"), Sk(eng, "level", Lab, I), Sk(eng, "f", Lab, Lab), Sk(eng, "h", Lab, Lab); j = self.j = z3.Int(eng.fresh("round")); self.dom = lambda x: z3.And(C(x), z3.Not(w.out(x))); self.pre = pre = object()
        eng.assume(j >= 0)
        for name, (n, q) in w.rounds(C, K, lev, f, h, j).items():
            eng.forall(E if n == 2 else Lab, q)
        # C = outputs, K = outputs that are not inputs, at round 0
        for name, (n, q) in w.rounds(w.out, lambda x: z3.And(w.out(x), z3.Not(w.inp(x))), lambda x: z3.IntVal(0), f, h, z3.IntVal(0)).items(): eng.prove(f"{name}: holds initially", q(*[eng.label("any") for _ in range(n)]))
        first = lambda v: v.prefix is None and (len(v.items) == 1 and isinstance(v.items[0], FSet) and CL.valid(eng, v.items[0].mem(x) == w.out(x)) if w.has_out else not v.items)
        def grown(v):
            if not (v.prefix is pre and len(v.items) == 1 and isinstance(v.items[0], FSet)): return False
            return v.items[0].mem(x) == self.N(x)
        nC = lambda x: z3.Or(C(x), self.N(x)); nK = lambda x: z3.Or(z3.And(K(x), z3.Not(self.R(x))), z3.And(self.N(x), z3.Not(w.inp(x))))
        self.nC, self.nK = nC, nK; d0 = lambda x: z3.BoolVal(False)
        def m_end(v): return z3.And(v.dom(x) == z3.And(nC(x), z3.Not(w.out(x))), z3.Implies(v.dom(x), value_is(v, x, z3.If(self.N(x), self.by(x), f(x)))))
        return [CL.Role("set", "corrected nodes", lambda v: v.mem(x) == w.out(x), lambda: C, lambda v: v.mem(x) == nC(x), lambda: C),
                CL.Role("set", "candidates", lambda v: v.mem(x) == z3.And(w.out(x), z3.Not(w.inp(x))), lambda: K, lambda v: v.mem(x) == nK(x), lambda: K),
                CL.Role("map", "correction function", lambda v: z3.Not(v.dom(x)), lambda: put(self.dom, f), m_end, lambda: put(self.dom, f)),
                CL.Role("list", "layers", first, lambda: pre, grown, lambda: pre)]
    def item(self): pass
    def near(self, x):
        """names for the nodes that matter for the correction of x in the given flow"""
        eng = self.eng; p = eng.label("corrector in the flow"); eng.assume(z3.And(p == self.w.g(x), *[eng.label("uncorrected") == t(p) for t in (self.u, self.v, self.tgt)], eng.label("corrected by p") == self.w.k(p)))
    def completed(self):
        w, eng, C, N, lev, f, by, j = self.w, self.eng, self.C, self.N, self.lev, self.f, self.by, self.j
        nlev = lambda x: z3.If(N(x), j + 1, lev(x)); nf = lambda x: z3.If(N(x), by(x), f(x))
        nh = lambda p: z3.If(self.one(p), self.tgt(p), self.h(p))
        for name, (n, q) in w.rounds(self.nC, self.nK, nlev, nf, nh, j + 1).items():
            xs = [eng.label("any") for _ in range(n)]
            if name == "correctors": eng.assume(eng.label("corrector") == nf(xs[0]))
            if name == "no later than in any flow": self.near(xs[0])
            eng.prove(f"loop invariant of {self.label}: {name}: preserved", q(*xs))
        eng.prove_exists("progress: every round corrects another node", Lab, lambda x: z3.And(N(x), z3.Not(C(x)))); eng.covered.add("a round")

@P.proof("causal flow search", [FC + "find_cflow"], "z3 (loop invariants)")
def cflow(ob):
    """For every open graph: what is returned is a causal flow; if there is one, it is found and no node is corrected later than in any other."""
    ob.assume("OpenGraph.neighbors is used through its contract (proved in C12); CausalFlow stores its arguments")
    first = {}
    for flow in (False, True):
        def h(eng):
            w = World(eng, flow); og = OG(w); eng.track_lists = True; made = []
            def contract_for(it):
                if isinstance(it, F.FVals): return Planes(w)
                if isinstance(it, FSet) and getattr(w, "outer", None) is not None and CL.valid(eng, it.mem(x := eng.label("x")) == w.outer.K(x)): return Candidates(w.outer)
            eng.contract_for = contract_for; eng.whiles = {"find_cflow/0": lambda: Rounds(w)}
            def make(og_, cf, layers): made.append((og_, cf, layers)); return made
            r = CL.lift(_find_cflow.find_cflow, CausalFlow=make)(og)
            if r is None:
                eng.covered.add("none")
                if not flow: return
                o = getattr(w, "outer", None)
                if o is not None:      # among the finitely many nodes that are left, one is at the lowest level
                    eng.prove_exists("the search gives up while some node is not corrected", Lab, lambda x: z3.And(w.V(x), z3.Not(o.C(x))))
                    x0 = eng.label("lowest"); eng.assume(z3.And(w.V(x0), z3.Not(o.C(x0)))); o.near(x0); eng.forall(Lab, lambda y: z3.Implies(z3.And(w.V(y), z3.Not(o.C(y))), w.L(x0) <= w.L(y)))
                eng.prove("a flow that exists is found", False); return
            if r is not made or len(made) != 1: raise Unfit("result")
            eng.covered.add("flow"); o = w.outer; og_, cf, layers = made[0]; x, y = eng.label("x"), eng.label("y")
            if not (og_ is og and isinstance(cf, FMap) and isinstance(layers, CL.GList)): raise Unfit("result")
            eng.prove("every measured node is corrected", cf.dom(x) == w.oc(x)); eng.prove("the layers contain every node", o.C(x) == w.V(x)); eng.prove("the layers are those of the rounds", layers.prefix is o.pre and not layers.items)
            if flow: eng.prove("no node is in a later layer than in any causal flow", z3.Implies(w.V(x), o.lev(x) <= w.L(x))); return
            eng.assume(w.oc(x)); eng.prove("measured in the XY plane", w.plane(x) == 0); c = eng.label("corrector"); eng.assume(c == o.f(x)); eng.prove("one corrector", value_is(cf, x, c))
            eng.prove("the corrector is not an input, but a neighbour in an earlier layer", z3.And(w.V(c), z3.Not(w.inp(c)), w.E(x, c), o.lev(c) < o.lev(x)))
            eng.prove("the other neighbours of the corrector are in earlier layers", z3.Implies(z3.And(w.E(c, y), y != x), o.lev(y) < o.lev(x)))
        eng = CL.attempt(ob, "find_cflow" + (", some flow exists" if flow else ""), h, first=first, limit_s=240); first = eng.pick
        eng.close(["flow", "a round", "a candidate"] + ([] if flow else ["none"]))

KINDS = ("causal", "gflow", "pauli")
def find(og, kind): return {"causal": lambda: og.to_causalflow_or_none(), "gflow": lambda: og.to_gflow_or_none(), "pauli": lambda: og.to_pauliflow_or_none()}[kind]()
def find_or_raise(og, kind): return {"causal": lambda: og.to_causalflow(), "gflow": lambda: og.to_gflow(), "pauli": lambda: og.to_pauliflow()}[kind]()
CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}

def meas_for(r, kind):
    if kind == "causal": return lambda r: BlochMeasurement(G.angle(r), Plane.XY if r.random() < .97 else Plane.YZ)
    u = r.random()
    if kind == "gflow":
        if u < .4: return lambda r: BlochMeasurement(G.angle(r, .3), Plane.XY)
        return lambda r: BlochMeasurement(G.angle(r, .3), r.choices(list(Plane), (3, 1, 1))[0])
    if u < .2: return lambda r: r.choice([Plane.XY, Plane.XY, Plane.XZ, Plane.YZ, Axis.X, Axis.Y, Axis.Z])
    q = r.choice([.2, .5, .8])
    return lambda r: G.measurement(r, q, .05, (Plane.XY, Plane.XY, Plane.XZ, Plane.YZ))

def build(seed, n, kind):
    r = random.Random(seed)
    if n == 0: return OpenGraph(nx.Graph(), [], [], {})
    u = r.random()
    n_out = r.randrange(0, n + 1) if u < .2 else r.randrange(1, max(2, (n + 1) // 2 + 1))
    n_in = r.randrange(0, n_out + 1) if r.random() < .6 else (n_out if r.random() < .9 else min(n, n_out + 1))
    return G.opengraph(r, n, meas_for(r, kind), n_in, n_out)

def desc(og): return f"inputs {og.input_nodes} outputs {og.output_nodes} edges {list(og.graph.edges)} labels {dict(og.measurements)}"

def validate(og, f, kind):
    cf = {k: set(v) for k, v in f.correction_function.items()}; lay = [set(l) for l in f.partial_order_layers]
    assert type(f) is CLS[kind] and f.og == og
    bad = S.violations(og, cf, lay, kind)
    assert not bad, f"the {kind} flow {cf} with layers {lay} violates {bad}; {desc(og)}"
    if kind != "causal":
        assert S.focused(og, cf, kind == "pauli"), f"the {kind} flow {cf} is not focused; {desc(og)}"
    assert len(lay) == len(min_layers(og, cf, kind)), f"layers {lay} are more than {min_layers(og, cf, kind)}, which {cf} allows; {desc(og)}"
    return cf, lay

def min_layers(og, cf, kind):
    """longest chain forced by the correction function"""
    adj = S.adjacency(og); outs = set(og.output_nodes); lab = {v: S.label(m, kind == "pauli") for v, m in og.measurements.items()}
    after = {}
    for v, c in cf.items():
        o = S.odd(adj, c); s = set()
        for w in c | (adj[next(iter(c))] if kind == "causal" else o):
            if w == v or w in outs: continue
            if kind == "pauli" and not ((w in c and lab[w] not in (Axis.X, Axis.Y)) or (w in o and lab[w] not in (Axis.Y, Axis.Z))): continue
            s.add(w)
        after[v] = s
    depth = {}
    def d(v):
        if v not in depth: depth[v] = 1 + max((d(w) for w in after[v]), default=0)
        return depth[v]
    for v in after: d(v)
    res = [set(outs)] if outs else []
    for k in range(1, max(depth.values(), default=0) + 1): res.append({v for v in depth if depth[v] == k})
    return res

def cases(rng, tier):
    for k in KINDS: yield [1, 0, k]
    yield from G.seeds(rng, lambda r: r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6]), lambda r: r.choice(["causal", "gflow", "gflow", "pauli", "pauli", "pauli"]))

UND = [FG + "AlgebraicOpenGraph", FG + "PlanarAlgebraicOpenGraph", FG + "CorrectionMatrix.to_correction_function", FG + "_compute_p_matrix", FG + "_find_solvable_nodes", FG + "_update_p_matrix",
       FG + "_update_kls_matrix", FG + "_compute_correction_matrix_general_case", FG + "_try_ordering_matrix_to_topological_generations", FG + "compute_partial_order_layers", FG + "compute_correction_matrix",
       FC + "find_cflow", FOG + "OpenGraph.to_causalflow_or_none", FOG + "OpenGraph.to_gflow_or_none", FOG + "OpenGraph.to_pauliflow_or_none"]

@P.bounded("existence, validity and layers", UND, cases, "random open graphs with at most 6 nodes, all correction sets searched", quick=14, thorough=200)
def exist(case):
    seed, n, kind = case
    og = build(seed, n, kind)
    f = find(og, kind); want = S.max_delayed(og, kind)
    assert (f is None) == (want is None), f"{'no ' if f is None else ''}{kind} flow is found, but the definition says otherwise; {desc(og)}"
    if f is None:
        try: find_or_raise(og, kind); raise RuntimeError("not raised")
        except Exception as e: assert "not raised" not in str(e)
        return
    cf, lay = validate(og, f, kind)
    assert find_or_raise(og, kind) == f
    assert len(lay) == len(want), f"{len(lay)} layers {lay} but the maximally delayed {kind} flow has {want}; {desc(og)}"

@P.bounded("relabelling", UND, lambda rng, tier: G.seeds(rng, lambda r: r.choice([3, 4, 5, 6, 7, 8, 10]), lambda r: r.choice(KINDS)), "random open graphs with at most 10 nodes, random renumberings", quick=6, thorough=60)
def relabel(case):
    seed, n, kind = case
    og = build(seed, n, kind); r = random.Random(seed + 1)
    ns = list(og.graph.nodes); new = r.sample(range(4 * n), n); m = dict(zip(ns, new))
    order = ns[:]; r.shuffle(order)
    g = nx.Graph(); g.add_nodes_from(m[v] for v in order)
    es = [(m[b], m[a]) if r.random() < .5 else (m[a], m[b]) for a, b in og.graph.edges]; r.shuffle(es); g.add_edges_from(es)
    ks = list(og.measurements); r.shuffle(ks)
    og2 = OpenGraph(g, [m[v] for v in og.input_nodes], [m[v] for v in og.output_nodes], {m[v]: og.measurements[v] for v in ks})
    f, f2 = find(og, kind), find(og2, kind)
    assert (f is None) == (f2 is None), f"existence of a {kind} flow depends on the numbering; {desc(og)} vs {m}"
    if f is None: return
    validate(og, f, kind); validate(og2, f2, kind)
    a = [{m[v] for v in l} for l in f.partial_order_layers]; b = [set(l) for l in f2.partial_order_layers]
    assert len(a) == len(b) and (a == b or len(og.input_nodes) != len(og.output_nodes)), f"layers depend on the numbering: {a} vs {b}; {desc(og)} {m}"
    if len(og.input_nodes) == len(og.output_nodes) and kind != "causal":
        assert {m[k]: {m[x] for x in v} for k, v in f.correction_function.items()} == {k: set(v) for k, v in f2.correction_function.items()}

@P.bounded("graphs with flow by construction", UND, lambda rng, tier: G.seeds(rng, lambda r: r.choice([1, 2, 3, 4]), lambda r: r.choice([1, 2, 3, 4])), "graphs with causal flow, up to 20 nodes, Pauli flow after relabelling some measurements", quick=6, thorough=60)
def constructed(case):
    seed, w, d = case
    r = random.Random(seed)
    og = G.flow_graph(r, w, d)
    for kind in KINDS:
        f = find(og, kind)
        assert f is not None, f"no {kind} flow although one exists by construction; {desc(og)}"
        validate(og, f, kind)
    # any XY measurement may become a Pauli X or Y one, the causal flow is still a Pauli flow; inputs may be dropped
    ms = {v: (BlochMeasurement(r.choice([0, 1, .5, 1.5]), Plane.XY).to_pauli_or_bloch() if r.random() < .4 else m) for v, m in og.measurements.items()}
    ins = [v for v in og.input_nodes if r.random() < .7]
    og2 = OpenGraph(og.graph, ins, og.output_nodes, ms)
    f = og2.to_pauliflow_or_none()
    assert f is not None, f"no Pauli flow although one exists by construction; {desc(og2)}"
    validate(og2, f, "pauli")

def small(rng, tier):
    for n in (1, 2, 3, 4):
        pairs = list(itertools.combinations(range(n), 2))
        for bits in itertools.product((0, 1), repeat=len(pairs)):
            for no in range(n + 1):
                for ni in range(min(n, no + 1) + 1):
                    yield [n, [list(p) for p, b in zip(pairs, bits) if b], no, ni]

@P.bounded("all small graphs", UND, small, "all graphs with at most 4 nodes, all outputs, inputs and labellings with planes (axes: 3 nodes, sampled for 4)", quick=12, thorough=300)
def allsmall(case):
    n, edges, no, ni = case
    g = nx.Graph(); g.add_nodes_from(range(n)); g.add_edges_from(map(tuple, edges))
    r = random.Random(str(case))
    outs = list(range(n - no, n)); meas = list(range(n - no))
    for ins in itertools.combinations(range(n), ni):
        for labs in itertools.product([*Plane, *Axis], repeat=len(meas)):
            if n == 4 and r.random() > (1 if len(meas) <= 2 else .25 if len(meas) == 3 else .03): continue
            og = OpenGraph(g, list(ins), outs, dict(zip(meas, labs)))
            for kind in KINDS:
                if kind != "pauli" and any(isinstance(x, Axis) for x in labs): continue
                f = find(og, kind); want = S.max_delayed(og, kind)
                assert (f is None) == (want is None), f"{'no ' if f is None else ''}{kind} flow is found, but the definition says otherwise; {desc(og)}"
                if f is not None:
                    _, lay = validate(og, f, kind)
                    assert len(lay) == len(want), f"layers {lay} but the maximally delayed ones are {want}; {desc(og)}"

@P.proof("finders of open graphs", ["graphix/opengraph.py:OpenGraph.to_gflow_or_none", "graphix/opengraph.py:OpenGraph.to_pauliflow_or_none", "graphix/opengraph.py:OpenGraph.to_causalflow_or_none",
         "graphix/opengraph.py:OpenGraph.to_gflow", "graphix/opengraph.py:OpenGraph.to_pauliflow", "graphix/opengraph.py:OpenGraph.to_causalflow"], "every outcome of the callees, by their contracts")
def finders_unit(ob):
    import types
    from gv.extract import raw
    from graphix.opengraph import OpenGraph, OpenGraphError
    from gv.extract import rebind
    for name, alg, cls in (("to_gflow_or_none", "PlanarAlgebraicOpenGraph", "GFlow"), ("to_pauliflow_or_none", "AlgebraicOpenGraph", "PauliFlow")):
        for cm in (None, "matrix"):
            for fl in (None, "flow") if cm else (None,):
                og = types.SimpleNamespace(_warn_non_inferred_pauli_measurements=lambda stacklevel=1: None)
                f = rebind(getattr(OpenGraph, name), **{alg: lambda o: ("algebraic", o), "compute_correction_matrix": lambda a: cm if a == ("algebraic", og) else "wrong graph",
                    cls: types.SimpleNamespace(from_correctionmatrix_or_none=lambda c: fl if c == cm else "wrong matrix")})
                ob.structural(f"{name}: correction matrix {cm}, ordering gives {fl}", f(og) == fl)
    f = rebind(OpenGraph.to_causalflow_or_none, find_cflow=lambda o: ("flow of", o))
    ob.structural("to_causalflow_or_none: the flow found", f("og") == ("flow of", "og"))
    for name in ("to_gflow", "to_pauliflow", "to_causalflow"):
        for fl in (None, "flow"):
            og = types.SimpleNamespace(**{name + "_or_none": lambda stacklevel=1: fl})
            try: r = raw(getattr(OpenGraph, name))(og)
            except OpenGraphError: r = None
            ob.structural(f"{name}: the flow found, or an error exactly when there is none ({fl})", r == fl)

# -- the algebraic search: what is built, pointwise; soundness -------------------------------------------------------------------
class BlockM:
    """A matrix of blocks, each a sum over GF(2) of words of symbols.  M C0 = 1 (right inverse), M F = 0 (null space)."""
    RULES = {("M", "C0"): (), ("M", "F"): None}
    def __init__(self, rows): self.rows = rows
    @staticmethod
    def sym(x): return BlockM([[frozenset([(x,)])]])
    @staticmethod
    def word(w):
        for i in range(len(w) - 1):
            if w[i:i + 2] in BlockM.RULES:
                r = BlockM.RULES[w[i:i + 2]]
                return None if r is None else BlockM.word(w[:i] + r + w[i + 2:])
        return w
    def mat_mul(self, o):
        if len(self.rows[0]) != len(o.rows): raise Unfit("blocks of a product")
        out = []
        for r in self.rows:
            line = []
            for j in range(len(o.rows[0])):
                acc = frozenset()
                for k, a in enumerate(r):
                    for x in a:
                        for y in o.rows[k][j]:
                            w = BlockM.word(x + y)
                            if w is not None: acc ^= {w}
                line.append(acc)
            out.append(line)
        return BlockM(out)
    def view(self, cls=None): return self
    def copy(self): return self
    def __getattr__(self, a): raise Unfit(f"matrix: {a}")

def concatenate(parts, axis=0):
    parts = list(parts)
    if axis == 0: return BlockM([list(r) for p in parts for r in p.rows])
    if axis == 1: return BlockM([[x for p in parts for x in p.rows[i]] for i in range(len(parts[0].rows))])
    raise Unfit("axis")

ALG = [FG + f for f in ("compute_correction_matrix", "_compute_correction_matrix_general_case", "compute_partial_order_layers", "_try_ordering_matrix_to_topological_generations", "CorrectionMatrix.to_correction_function")]
ALG += ["graphix/flow/core.py:PauliFlow.from_correctionmatrix_or_none"]
@P.proof("algebraic search: soundness", ALG, "block algebra over GF(2) with the contracts of C09; one node at a time")
def algebraic(ob):
    import types
    import numpy as np
    from gv import extract as X, loops
    from graphix.flow import _find_gpflow as fg
    ns = types.SimpleNamespace
    class Flow(BlockM):
        """the flow-demand matrix; has a right inverse or not"""
        inv = True
        def right_inverse(self): return BlockM.sym("C0") if self.inv else None
        def null_space(self): f = BlockM.sym("F"); return ns(transpose=lambda: f, T=f)
    class Order(BlockM):
        shape = (4, 3)
        def __init__(self, nonzero): BlockM.__init__(self, [[frozenset([("N",)])]]); self.nonzero = nonzero
        def any(self, axis=None):
            if axis not in (1, -1): raise Unfit("any")
            return ("rows", self)
        def __getitem__(self, i):
            if not (isinstance(i, np.ndarray) and list(i) == self.nonzero): raise Unfit("rows")
            return BlockM.sym("N without its zero rows")
    one = BlockM([[frozenset([()])]])
    class Np:
        uint8 = np.uint8
        concatenate = staticmethod(concatenate)
        hstack = staticmethod(lambda p: concatenate(p, 1)); vstack = staticmethod(lambda p: concatenate(p, 0))
        eye = staticmethod(lambda n, dtype=None: one)
        zeros = staticmethod(lambda s, dtype=None: BlockM([[frozenset()]]))
        @staticmethod
        def flatnonzero(t):
            if not (isinstance(t, tuple) and t[0] == "rows"): raise Unfit("flatnonzero")
            return np.array(t[1].nonzero, dtype=int)
        def __getattr__(self, a): raise Unfit(f"np.{a}")
    general = X.raw(fg._compute_correction_matrix_general_case); M = Flow([[frozenset([("M",)])]])
    for nonzero in ([], [0, 1, 2, 3], [1, 3], [0]):
        for p in ("P", None):
            for inv in (True, False):
                M.inv = inv; args = []; tags = ["a", "b", "c", "d"]
                aog = ns(non_outputs=list(tags), non_outputs_optim=list(tags), og=ns(output_nodes=[0] * 5, input_nodes=[0] * 3))
                def pm(*a, **k):
                    a = [*a, *k.values()]; args.append((a[0], a[1].rows, list(aog.non_outputs_optim))); return BlockM.sym("P") if p else None
                r = X.rebind(general, np=Np(), _compute_p_matrix=pm)(aog, M, Order(nonzero))
                lab = f"general case, {'right inverse' if inv else 'no right inverse'}, order demands of rows {nonzero}, {'basis change found' if p else 'none found'}"
                if not inv: ob.structural(f"{lab}: there is no correction matrix", r is None); continue
                if nonzero and p is None: ob.structural(f"{lab}: there is no correction matrix", r is None); continue
                ob.structural(f"{lab}: the result is a right inverse of the flow-demand matrix", isinstance(r, BlockM) and M.mat_mul(r).rows == one.rows)
                if nonzero:
                    w = "N without its zero rows"
                    ob.structural(f"{lab}: the ordering is sought for the non-zero order demands in the new basis, nodes kept in step",
                        len(args) == 1 and args[0][0] is aog and args[0][1] == [[frozenset([(w, "C0")]), frozenset([(w, "F")])]] and args[0][2] == [tags[i] for i in nonzero] and aog.non_outputs == tags)
    for ni, no in ((0, 0), (0, 1), (1, 1), (1, 3), (2, 1), (3, 3), (4, 2)):
        for inv in (True, False):
            M.inv = inv; og = ns(input_nodes=list(range(ni)), output_nodes=list(range(no))); N = Order([0])
            aog = ns(og=og, _og_matrices=(M, N), flow_demand_matrix=M, order_demand_matrix=N)
            gen = BlockM.sym("C0")
            f = X.rebind(fg.compute_correction_matrix, _compute_correction_matrix_general_case=lambda a, x, y: gen if inv and (a, x, y) == (aog, M, N) else None)
            r = f(aog); lab = f"{ni} inputs, {no} outputs, {'right inverse' if inv else 'no right inverse'}"
            if ni > no or not inv: ob.structural(f"{lab}: none", r is None)
            else: ob.structural(f"{lab}: a right inverse of the flow-demand matrix", isinstance(r, fg.CorrectionMatrix) and r.aog is aog and M.mat_mul(r.c_matrix).rows == one.rows)
    # layers: the outputs, then the generations of the ordering matrix from the last to the first
    for outs in ([], ["o", "p"]):
        for gens in (None, (), (frozenset({0, 2}),), (frozenset({1}), frozenset({0, 2}))):
            tags = ["a", "b", "c"]; got = []
            cm = ns(aog=ns(order_demand_matrix=BlockM.sym("N"), og=ns(output_nodes=outs), non_outputs=tags), c_matrix=BlockM.sym("C"))
            r = X.rebind(fg.compute_partial_order_layers, _try_ordering_matrix_to_topological_generations=lambda m: (got.append(m.rows), gens)[1])(cm)
            ob.structural(f"layers, {len(outs)} outputs, {gens}: those of N C", got == [[[frozenset([("N", "C")])]]])
            want = None if gens is None else tuple(([frozenset(outs)] if outs else []) + [frozenset(tags[i] for i in g) for g in reversed(gens)])
            ob.structural(f"layers, {len(outs)} outputs, {gens}: order", r == want and (r is None or isinstance(r, tuple)))
    # the graph of the ordering matrix, entry (i, j): i comes after j
    class Line:
        def __init__(self, ones): self.ones = ones
    class Flat:
        def __init__(self, ones): self.ones = ones
        size = property(lambda s: len(s.ones))
        def astype(self, t): return self
        def tolist(self): return list(self.ones)
        def __iter__(self): return iter(self.ones)
        def __len__(self): return len(self.ones)
    nf = ns(flatnonzero=lambda l: Flat(l.ones), intp=np.intp)
    for n in range(4):
        for bits in range(2 ** (n * n)):
            a = [[bits >> (i * n + j) & 1 for j in range(n)] for i in range(n)]
            class Mx:
                T = [Line([i for i in range(n) if a[i][j]]) for j in range(n)]
                def __iter__(self): return iter([Line([j for j in range(n) if a[i][j]]) for i in range(n)])
            got = []
            r = X.rebind(fg._try_ordering_matrix_to_topological_generations, np=nf, compute_topological_generations=lambda *x, **k: (got.append(([*x, *k.values()])), "generations")[1])(Mx())
            if len(got) != 1: raise Unfit("generations")
            nb, deg, zero = got[0]
            ok = r == "generations" and dict(nb) == {j: {i for i in range(n) if a[i][j]} for j in range(n)} and dict(deg) == {i: sum(a[i]) for i in range(n) if any(a[i])} and set(zero) == {i for i in range(n) if not any(a[i])}
            if not ok or n < 3 or bits % 64 == 0: ob.structural(f"graph of the ordering matrix {n}/{bits}", ok)
    # correction sets: the ones of the column of the node
    rows = ["p", "q", "r"]
    for bits in range(8):
        cols = ["u", "v"]; ones = [k for k in range(3) if bits >> k & 1]; seen = []
        class Cm:
            def __getitem__(self, i):
                if not (isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None)): raise Unfit("entry of the correction matrix")
                return ones if i[1] == 1 else [0]
        me = ns(aog=ns(non_inputs=rows, non_outputs=cols), c_matrix=Cm())
        r = X.rebind(fg.CorrectionMatrix.to_correction_function, np=ns(flatnonzero=lambda x: x))(me)
        ob.structural(f"correction set of a node: rows {ones} of its column", {k: set(s) for k, s in r.items()} == {"u": {"p"}, "v": {rows[k] for k in ones}} and all(isinstance(s, frozenset) for s in r.values()))
    for layers in (None, ("l0", "l1")):
        cm = ns(aog=ns(og="og"), to_correction_function=lambda: "cf")
        f = X.rebind(PauliFlow.__dict__["from_correctionmatrix_or_none"], compute_partial_order_layers=lambda c: layers if c is cm else "other")
        r = f(lambda *a, **k: ("flow", *a, *k.values()), cm)
        ob.structural(f"flow of a correction matrix, {'ordered' if layers else 'not ordered'}", r == (("flow", "og", "cf", layers) if layers else None))

@P.proof("algebraic search: demand matrices", [FG + "AlgebraicOpenGraph._og_matrices", FG + "AlgebraicOpenGraph._compute_reduced_adj", FG + "AlgebraicOpenGraph.__init__"], "one node, one edge at a time; generic columns")
def demands(ob):
    import types
    from gv import extract as X, loops
    from graphix.flow import _find_gpflow as fg
    ns = types.SimpleNamespace
    # what the definition demands of the correction set of the row's node: it is met (flow) / absent for earlier nodes (order)
    ODD, MEM, BOTH, NONE = {"A"}, {"1"}, {"A", "1"}, set()
    SPEC = {Plane.XY: (ODD, MEM), Plane.XZ: (MEM, BOTH), Plane.YZ: (MEM, ODD), Axis.X: (ODD, NONE), Axis.Y: (BOTH, NONE), Axis.Z: (MEM, NONE)}
    class Tags:
        def __init__(self, d): self.d = d
        def index(self, x):
            if x not in self.d: raise Unfit("index of a node that is not a tag")
            return self.d[x]
        def __contains__(self, x): return x in self.d
        def __iter__(self): return iter(self.d)
        def __len__(self): return len(self.d)
    class Rec:
        """entries of a generic row: in the column of its own node, in another one"""
        def __init__(self, i, j): self.i, self.j, self.own, self.other = i, j, set(), {"A"}
        def __setitem__(self, k, v):
            if not isinstance(k, tuple): k = (k, slice(None))
            if k[0] != self.i: raise Unfit("another row")
            if v not in (0, 1): raise Unfit("entry")
            if k[1] == slice(None):
                if v: raise Unfit("row of ones")
                self.own, self.other = set(), set()
            elif k[1] == self.j: self.own = {"1"} if v else set()
            else: raise Unfit("another column")
    step = loops.step(X.raw(fg.AlgebraicOpenGraph.__dict__["_og_matrices"].func), 0)
    for lab, (fl, od) in SPEC.items():
        for isin in (False, True):
            v = "v"; j = None if isin else 5
            f, o = Rec(2, j), Rec(2, j); cols = Tags({} if isin else {v: 5})
            me = ns(_node_measurement_label=lambda x: lab if x == v else None)
            step(v, self=me, row_tags=Tags({v: 2}), col_tags=cols, inputs_set={v} if isin else {"w"}, flow_demand_matrix=f, order_demand_matrix=o)
            for what, rec, spec in (("flow", f, fl), ("order", o, od)):
                # the graph has no self-loops: A(v, v) = 0, so the own column holds the membership part
                ob.structural(f"{lab}{', input' if isin else ''}: {what} demand", rec.other == ({"A"} if "A" in spec else set()) and (isin or rec.own == ({"1"} if "1" in spec else set())))
    # whole method: both start from the adjacency, in the right order
    class Adj:
        def __init__(self, n): self.n = n
        def copy(self): return Adj("copy of " + self.n)
    me = ns(_compute_reduced_adj=lambda: Adj("adjacency"), og=ns(input_nodes=[]), non_outputs=[], non_inputs=[])
    r = X.raw(fg.AlgebraicOpenGraph.__dict__["_og_matrices"].func)(me)
    ob.structural("both demand matrices start from the adjacency and are separate", len(r) == 2 and r[0].n == "adjacency" and r[1].n == "copy of adjacency")
    sub = loops.step(fg.AlgebraicOpenGraph._compute_reduced_adj, 0)
    class Cells(dict): pass
    for c in itertools.product((False, True), repeat=4):
        rows = Tags({k: 10 + i for i, k in enumerate("ab") if c[i]}); cols = Tags({k: 20 + i for i, k in enumerate("ab") if c[2 + i]}); m = Cells()
        sub(("a", "b"), self=ns(), row_tags=rows, col_tags=cols, adj_red=m)
        want = {(rows.d[u], cols.d[v]): 1 for u, v in (("a", "b"), ("b", "a")) if u in rows and v in cols}
        ob.structural(f"an edge: rows {list(rows)}, columns {list(cols)}", dict(m) == want)
    for nodes, ins, outs in itertools.product(([3, 1, 2, 0],), ([], [1], [2, 3], [0, 1, 2, 3]), ([], [1], [0, 2], [3, 2, 1, 0])):
        a = fg.AlgebraicOpenGraph(ns(graph=ns(nodes=nodes), input_nodes=ins, output_nodes=outs))
        ob.structural(f"tags: inputs {ins}, outputs {outs}", list(a.non_inputs) == sorted(set(nodes) - set(ins)) and list(a.non_outputs) == sorted(set(nodes) - set(outs))
            and list(a.non_outputs_optim) == list(a.non_outputs) and a.non_outputs_optim is not a.non_outputs)

@P.proof("algebraic search: solvable nodes", [FG + "_find_solvable_nodes", FG + "_update_p_matrix", FG + "_compute_p_matrix"], "opaque matrices, every outcome of the tests; one node at a time")
def solvable(ob):
    import types
    import numpy as np
    from gv import extract as X, loops
    from graphix.flow import _find_gpflow as fg
    ns = types.SimpleNamespace; D = 3
    class Tags(list): pass
    nodes = ["t", "u", "v", "w"]
    class Zero:
        """rows of the first block that vanish"""
        def __init__(self, neg=False): self.neg = neg
        def __invert__(self): return Zero(not self.neg)
    class Idx:
        def __init__(self, n): self.size = n
        def __len__(self): return self.size
    for some in (0, 2):
        for clean in itertools.product((False, True), repeat=3):
            solved = {"t"}; ok = {v: c for v, c in zip("uvw", clean)}; asked = []
            class K:
                def __getitem__(self, i):
                    if isinstance(i[0], slice):
                        if i != (slice(None), slice(None, D)): raise Unfit("block")
                        return ns(any=lambda axis=None: Zero() if axis in (1, -1) else (_ for _ in ()).throw(Unfit("any")))
                    if not isinstance(i[0], Idx): raise Unfit("rows")
                    v = nodes[i[1] - D]; asked.append(v)
                    return ns(any=lambda: not (some == 0 or ok[v]))
            def fnz(z):
                if not (isinstance(z, Zero) and z.neg): raise Unfit("flatnonzero")
                return Idx(some)
            r = X.rebind(fg._find_solvable_nodes, np=ns(flatnonzero=fnz))(ns(non_outputs=Tags(nodes)), K(), frozenset(nodes), solved, D)
            ob.structural(f"solvable: consistent systems of unsolved nodes ({some} rows vanish, {clean})", set(r) == {v for v in "uvw" if some == 0 or ok[v]} and solved == {"t"})
    class Kls:
        def __getitem__(self, i):
            if i == (slice(None), slice(None, D)): return "first block"
            if isinstance(i, tuple) and i[0] == slice(None) and isinstance(i[1], int): return ("column", i[1])
            raise Unfit("part of the matrix")
    for j, v in enumerate(nodes):
        p = {}
        class Pm:
            def __setitem__(self, k, x):
                if not (isinstance(k, tuple) and k[0] == slice(None)): raise Unfit("part of P")
                p[k[1]] = x
        loops.step(fg._update_p_matrix, 0, MatGF2=lambda x, copy=True: x, solve_f2_linear_system=lambda m, b: ("solution", m, b))(v, aog=ns(non_outputs=Tags(nodes)), kls_matrix=Kls(), p_matrix=Pm(), solvable_nodes={v}, n_oi_diff=D)
        ob.structural(f"column {j} of P solves the system of its node", p == {j: ("solution", "first block", ("column", D + j))})
    # the search stops when all nodes are solved, or fails when none of the rest is solvable
    for script in ([{"t", "u", "v", "w"}], [{"t"}, {"u", "v"}, {"w"}], [set()], [{"t", "u"}, set()], [{"v"}, {"u"}, {"t"}, set()]):
        log = []; it = iter(script)
        class Nb:
            def __getitem__(self, i): return ("part", i[1].start, i[1].stop)
        class Kils:
            def view(self, c=None): return self
            def gauss_elimination(self, ncols=None, copy=True):
                log.append(("eliminated", ncols, copy)); return kls
        kls, kils, pm = object(), Kils(), ns(view=lambda c=None: "P")
        def conc(parts, axis=0): log.append(("blocks", tuple(parts), axis)); return kils
        def find(aog, k, nos, solved, d):
            if k is not kls: raise Unfit("matrix searched")
            s = next(it); log.append(("find", frozenset(nos), frozenset(solved), d)); return set(s)
        def upp(aog, k, p, s, d): log.append(("P", k is kls, p, frozenset(s), d))
        def upk(aog, k, ki, s, d, n, m): log.append(("K", k is kls, ki is kils, frozenset(s), d, n, m))
        aog = ns(non_outputs=Tags(nodes), non_outputs_optim=Tags(nodes[:2]), og=ns(output_nodes=[0] * 5, input_nodes=[0] * 2))
        r = X.rebind(fg._compute_p_matrix, np=ns(concatenate=conc, hstack=lambda p: conc(p, 1), eye=lambda n, dtype=None: ("1", n), zeros=lambda s, dtype=None: pm if tuple(s) == (3, 4) else None, uint8=0),
            _find_solvable_nodes=find, _update_p_matrix=upp, _update_kls_matrix=upk)(aog, Nb())
        want = [("blocks", (("part", 4, None), ("part", None, 4), ("1", 2)), 1), ("eliminated", 3, True)]; solved = frozenset(); res = "P"
        for s in script:
            want.append(("find", frozenset(nodes), solved, 3))
            if not s: res = None; break
            want += [("P", True, "P", frozenset(s), 3), ("K", True, True, frozenset(s), 3, 4, 2)]; solved |= s
        ob.structural(f"search {[sorted(s) for s in script]}", r == res and log == want)
