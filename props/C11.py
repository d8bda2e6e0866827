from __future__ import annotations
import contextlib, io, itertools, random
from gv import boot, gen as G  # noqa: F401
from gv.core import Prop, Unfit, need
from graphix.clifford import Clifford
from graphix.command import CommandKind
from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import XZCorrectionsError, XZCorrectionsGenericError
from graphix.measurements import BlochMeasurement, Measurement
from graphix.opengraph import OpenGraph

FCO, FO, FP = "graphix/flow/core.py:", "graphix/optimization.py:", "graphix/pattern.py:"
P = Prop("C11", "proof",
    'check_well_formed is executed on arbitrary corrections, layers and graphs (loop contracts over arbitrary mappings): it accepts exactly the well-formed ones and a rejection names a violated property.  Realising corrections as commands and extracting them back are proved one loop element at a time with opaque nodes.  is_compatible is proved to accept exactly the orders whose layers never go back (loop contracts, any number of nodes and layers).  Whole realised patterns are compared with an independent statement of the definition, exhaustive on two-node graphs and random beyond (bounded).',
    ['the correction function, the layers, the graph and the boundary are arbitrary finite sets and mappings (uninterpreted predicates); folds over sets are pointwise parities'], ["z3"])

def well_formed(og, x, z, layers):
    nodes = set(og.graph.nodes); outs = set(og.output_nodes); meas = nodes - outs
    if not layers: return not nodes and not x and not z
    if not (set(x) | set(z)) <= meas: return False
    if not all(set(s) <= nodes for d in (x, z) for s in d.values()): return False
    rest = layers
    if outs:
        if set(layers[0]) != outs: return False
        rest = layers[1:]
    flat = [v for l in rest for v in l]
    if any(not l for l in rest) or len(flat) != len(set(flat)) or set(flat) != meas: return False
    lay = {v: i for i, l in enumerate(layers) for v in l}      # smaller index = later
    return all(lay[b] < lay[a] for d in (x, z) for a, s in d.items() for b in s)

def corrections(r, og, rank, p_bad=.0):
    outs = set(og.output_nodes); nodes = list(og.graph.nodes)
    d = {}
    for v in nodes:
        if v in outs: continue
        if r.random() < .6:
            d[v] = {u for u in nodes if r.random() < .4 and (u in outs or rank[u] < rank[v] or r.random() < p_bad)}
    return d

def candidate(r, n):
    og = G.opengraph(r, n, n_out=r.randrange(0, n + 1), n_in=r.randrange(0, min(2, n) + 1)) if n else OpenGraph(__import__("networkx").Graph(), [], [], {})
    nodes = list(og.graph.nodes); outs = set(og.output_nodes); meas = [v for v in nodes if v not in outs]
    k = max(1, min(len(meas), r.randrange(1, 5)))
    rank = {v: 0 for v in outs}
    for v in meas: rank[v] = 1 + r.randrange(k)
    used = sorted({rank[v] for v in meas})
    layers = ([set(outs)] if outs else []) + [{v for v in meas if rank[v] == i} for i in used]
    return og, corrections(r, og, rank, r.choice([0, 0, .1])), corrections(r, og, rank, r.choice([0, 0, .1])), layers

def mutate(r, og, x, z, layers):
    nodes = list(og.graph.nodes) + [max(og.graph.nodes, default=0) + 3]
    u = r.randrange(9)
    if u == 0: r.choice([x, z]).setdefault(r.choice(nodes), set()).add(r.choice(nodes))
    elif u == 1 and layers: layers.insert(r.randrange(len(layers) + 1), set())
    elif u == 2 and layers: r.choice(layers).add(r.choice(nodes))
    elif u == 3 and layers:
        l = r.choice(layers)
        if l: l.discard(r.choice(sorted(l)))
    elif u == 4 and layers: layers.pop(r.randrange(len(layers)))
    elif u == 5: r.shuffle(layers)
    elif u == 6 and len(layers) > 1: layers[0:2] = [layers[0] | layers[1]]
    elif u == 7: r.choice([x, z])[r.choice(nodes)] = set()
    elif u == 8: layers.reverse()

def wf_cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]))

@P.bounded("well-formedness", [FCO + "XZCorrections.check_well_formed"], wf_cases, "random candidates on open graphs up to 6 nodes, valid or with up to two defects", quick=8, thorough=100)
def wf(case):
    seed, n = case
    r = random.Random(seed)
    og, x, z, layers = candidate(r, n)
    for _ in range(r.choice([0, 0, 1, 1, 2])): mutate(r, og, x, z, layers)
    c = XZCorrections(og, x, z, tuple(frozenset(l) for l in layers))
    want = well_formed(og, x, z, layers)
    try: c.check_well_formed(); got = True
    except XZCorrectionsError as e: got = False; err = e
    assert got == want, f"{'accepted' if got else f'rejected ({err!r})'}: outputs {og.output_nodes} nodes {list(og.graph)} x {x} z {z} layers {layers}"

from gv import sym as SY
from gv.bits import forall as q_forall, run_int
z3s = SY.z3
class Tok:
    """a set built from the nodes; only compared"""
    def __init__(self, name, ask): self.name, self.ask = name, ask
    def __sub__(self, o):
        if not isinstance(o, Tok): raise Unfit("difference")
        return Tok(("minus", self.name, o.name), self.ask)
    difference = __sub__
    def __eq__(self, o): return self.ask(self.name, o.name) if isinstance(o, Tok) else NotImplemented
    def __ne__(self, o): return ~self.ask(self.name, o.name)
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"set: {a}")
class Layer:
    """the i-th layer in the order of measurement"""
    def __init__(self, i, number): self.i, self.number = i, number
    def __contains__(self, node):
        if not isinstance(node, Nd): raise Unfit("member of a layer")
        return SY.CUR.decide(self.number(node.j) == SY.SI.of(self.i).e)
class Nd:
    def __init__(self, j): self.j = j
class Order(SY.SRange):
    def __init__(self, n): super().__init__(n); self.n = n
    def item(self, j): return Nd(SY.SI.of(j).e)
    def concrete(self): return False

@P.proof("compatibility of an order with the layers", [FCO + "XZCorrections.is_compatible"], "z3 loop contracts, any number of nodes and layers")
def compatibility(ob):
    @run_int
    def go():
        for outputs in (False, True):
            e = SY.Engine(ob, f"is_compatible({'outputs' if outputs else 'no outputs'})", timeout_ms=3000); e.mbqi = False; e.limit_s = 25; e.feasible = lambda: True
            def harness():
                n, k = SY.SI.of(SY.bvar("n")), SY.SI.of(SY.bvar("k")); e.assume(z3s.And(n.e >= 0, k.e >= 0))
                L = z3s.Function(e.fresh("layer"), z3s.IntSort(), z3s.IntSort())       # layer of the j-th node of the order
                same, length = SY.SBool(z3s.Bool(e.fresh("same_nodes"))), SY.SI.of(SY.bvar("number_of_non_outputs"))
                measured = ("minus", ("set", "nodes"), ("set", "outputs"))
                def ask(a, b):
                    if {repr(a), repr(b)} != {repr(measured), repr(("set", "order"))}: raise Unfit("comparison of other sets")
                    return same
                mono = lambda upto: q_forall(1, lambda j: z3s.Implies(z3s.And(j >= 0, j + 1 < upto), L(j) <= L(j + 1)), lambda j: z3s.MultiPattern(L(j), L(j + 1)))
                # the layers partition the measured nodes: every node of an order of the measured nodes has one
                partition = lambda: e.assume(q_forall(1, lambda j: z3s.Implies(z3s.And(j >= 0, j < n.e), z3s.And(L(j) >= 0, L(j) < k.e)), lambda j: L(j)))
                class Name:
                    def __init__(self, name): self.name = name
                    def __bool__(self):
                        if self.name != "outputs": raise Unfit("emptiness")
                        return outputs
                def mkset(x=()):
                    if isinstance(x, Order): return Tok(("set", "order"), ask)
                    if isinstance(x, Name): return Tok(("set", x.name), ask)
                    raise Unfit("set of something else")
                class Stack:
                    def __init__(self, shift=None, rev=False): self.shift, self.rev = shift, rev
                    def __getitem__(self, i):
                        if isinstance(i, slice):
                            if self.shift is not None or self.rev or i.stop is not None or i.step is not None: raise Unfit("slice of the layers")
                            return Stack(i.start or 0)
                        if not self.rev or self.shift != int(outputs): raise Unfit("layer of something else")
                        i = SY.SI.of(i); e.prove("the layer exists", z3s.And(i.e >= 0, i.e < k.e))
                        return Layer(i, L)
                    def __bool__(self):
                        if self.shift != int(outputs): raise Unfit("emptiness of something else")
                        return e.decide(k.e > 0)
                def rev(x):
                    if not isinstance(x, Stack) or x.rev: raise Unfit("reversed")
                    return Stack(x.shift, True)
                def size(x):
                    if isinstance(x, Order): return n
                    if isinstance(x, Stack) and x.shift == int(outputs): return k
                    if isinstance(x, Tok) and x.name == measured: return length
                    if isinstance(x, Tok) and x.name == ("set", "order"): return length
                    raise Unfit("len")
                class Self: pass
                me, og, gr = Self(), Self(), Self(); me.og = og; og.graph = gr; gr.nodes = Name("nodes"); og.output_nodes = Name("outputs"); me.partial_order_layers = Stack()
                g = {}
                def cursor(env, now): return SY.SI.of(now["i"]).e, now["layer"]
                def start(env, j, now):
                    if not g.get("in"): g["in"] = True; e.prove("every measured node is in the order, once", z3s.And(same.e, length.e == n.e)); partition()
                    i, layer = cursor(env, now); j = SY.SI.of(j).e
                    if not isinstance(layer, Layer): raise Unfit("current layer")
                    return [("the current layer", z3s.And(SY.SI.of(layer.i).e == i, i >= 0, i < k.e)), ("layers so far", mono(j)),
                            ("the layer of the last node", z3s.If(j > 0, i == L(j - 1), i == 0))]
                def fresh(env, j, now):
                    i = SY.bvar("i"); return dict(i=i, layer=Layer(i, L))
                def inner(env, _i, now):
                    i, layer = cursor(env, now)
                    if "node" not in now or not isinstance(now["node"], Nd): raise Unfit("loop variable")
                    j = now["node"].j; i0 = SY.SI.of(env["i"]).e
                    return [("the current layer", z3s.And(SY.SI.of(layer.i).e == i, i >= i0, i < k.e)), ("the node is not in a layer that was skipped", z3s.Or(i <= L(j), L(j) < i0))]
                loops = {0: SY.Loop(inv=start, havoc=fresh, auto=False, body_ghost=lambda env, j, now: g.update(j=SY.SI.of(j).e)), 1: SY.Loop(inv=inner, havoc=fresh, auto=False)}
                f = SY.instrument(e, XZCorrections.is_compatible, loops, dict(set=mkset, frozenset=mkset, len=size, reversed=rev, list=lambda x: x, tuple=lambda x: x, print=lambda *a, **k: None), expect_loops=2)
                r = f(me, Order(n))
                if r not in (True, False): raise Unfit("verdict")
                if not g.get("in"):       # decided before the loop
                    if r: e.assume(z3s.Implies(k.e == 0, length.e == 0)); e.prove("accepted at once only if there is nothing to measure", z3s.And(same.e, n.e == 0))
                    else: e.prove("refused at once only if the nodes are not the measured ones, once each", z3s.Or(z3s.Not(same.e), length.e != n.e))
                elif r: e.prove("accepted: the layers never go back", mono(n.e)); e.covered.add("accepted")
                else: e.prove("refused: the layer of a node comes before that of its predecessor", z3s.And(g["j"] > 0, L(g["j"]) < L(g["j"] - 1))); e.covered.add("refused")
            e.explore(harness); e.close(("accepted", "refused"))
    go()

@P.bounded("compatible orders", [FCO + "XZCorrections.is_compatible", FCO + "XZCorrections.generate_total_measurement_order"], wf_cases, "all/mutated orders of well-formed corrections", quick=5, thorough=60)
def compat(case):
    seed, n = case
    r = random.Random(seed)
    og, x, z, layers = candidate(r, n)
    if not well_formed(og, x, z, layers): return "skip"
    c = XZCorrections(og, x, z, tuple(frozenset(l) for l in layers))
    meas = [v for v in og.graph.nodes if v not in set(og.output_nodes)]
    lay = {v: i for i, l in enumerate(layers) for v in l}
    base = sorted(meas, key=lambda v: (-lay[v], r.random()))
    def ok(o): return sorted(o) == sorted(meas) and all(lay[a] >= lay[b] for a, b in zip(o, o[1:]))
    for _ in range(6):
        o = list(base)
        u = r.randrange(6)
        if u == 1: r.shuffle(o)
        elif u == 2 and o: o.append(r.choice(o))
        elif u == 3 and o: o.pop(r.randrange(len(o)))
        elif u == 4 and len(o) > 1: i = r.randrange(len(o) - 1); o[i], o[i + 1] = o[i + 1], o[i]
        elif u == 5: o.insert(r.randrange(len(o) + 1), r.choice([*og.output_nodes, 99]))
        with contextlib.redirect_stdout(io.StringIO()): got = c.is_compatible(o)
        assert got == ok(o), f"order {o} declared {'compatible' if got else 'incompatible'} with layers {layers} (outputs {og.output_nodes})"
    g = list(c.generate_total_measurement_order())
    assert ok(g), f"generated order {g} for {layers}"

def same_og(a, b):
    assert set(a.graph) == set(b.graph) and {frozenset(e) for e in a.graph.edges} == {frozenset(e) for e in b.graph.edges}, "graph"
    assert list(a.input_nodes) == list(b.input_nodes) and list(a.output_nodes) == list(b.output_nodes), "inputs or outputs"
    assert dict(a.measurements) == dict(b.measurements), f"measurements {a.measurements} {b.measurements}"
    assert dict(a.output_cliffords) == dict(b.output_cliffords), "output Cliffords"

@P.bounded("realised patterns", [FCO + "XZCorrections.to_pattern", FO + "StandardizedPattern.to_xzcorrections", FO + "StandardizedPattern.to_opengraph", FP + "Pattern.to_xzcorrections"], wf_cases, "well-formed corrections on random open graphs up to 6 nodes", quick=8, thorough=100)
def realised(case):
    seed, n = case
    r = random.Random(seed)
    og, x, z, layers = candidate(r, n)
    if not well_formed(og, x, z, layers): return "skip"
    if r.random() < .3 and og.output_nodes:
        og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {v: Clifford(r.randrange(1, 24)) for v in og.output_nodes if r.random() < .6})
    c = XZCorrections(og, x, z, tuple(frozenset(l) for l in layers))
    snap = repr((x, z, layers))
    lay = {v: i for i, l in enumerate(layers) for v in l}
    outs = set(og.output_nodes); meas = [v for v in og.graph.nodes if v not in outs]
    order = sorted(meas, key=lambda v: (-lay[v], r.random())) if r.random() < .5 else None
    p = c.to_pattern(order) if order is not None else c.to_pattern()
    p.check_runnability()
    assert p.input_nodes == list(og.input_nodes) and p.output_nodes == list(og.output_nodes)
    pos = {cmd.node: i for i, cmd in enumerate(p) if cmd.kind == CommandKind.M}
    got_order = sorted(pos, key=pos.get)
    assert sorted(got_order) == sorted(meas) and all(lay[a] >= lay[b] for a, b in zip(got_order, got_order[1:])), "measurement order"
    if order is not None: assert got_order == order, "requested measurement order is not followed"
    dom = {"x": {}, "z": {}}; edges = []; prep = []; cl = {}
    for i, cmd in enumerate(p):
        if cmd.kind == CommandKind.N: prep.append(cmd.node)
        elif cmd.kind == CommandKind.E: edges.append(frozenset(cmd.nodes))
        elif cmd.kind == CommandKind.M:
            assert cmd.measurement == og.measurements[cmd.node]
            # a dependent measurement is a correction applied just before it
            for k, d in (("x", cmd.s_domain), ("z", cmd.t_domain)): dom[k][cmd.node] = dom[k].get(cmd.node, frozenset()) ^ frozenset(d)
        elif cmd.kind in (CommandKind.X, CommandKind.Z):
            k = "x" if cmd.kind == CommandKind.X else "z"
            assert cmd.node in outs or i < pos[cmd.node]
            assert cmd.node not in cl, "correction after the output Clifford"
            dom[k][cmd.node] = dom[k].get(cmd.node, frozenset()) ^ frozenset(cmd.domain)
        elif cmd.kind == CommandKind.C: cl[cmd.node] = cmd.clifford
    assert sorted(prep) == sorted(set(og.graph) - set(og.input_nodes)), "preparations"
    assert sorted(map(sorted, edges)) == sorted(map(sorted, og.graph.edges)), "edges"
    assert cl == dict(og.output_cliffords), "output Cliffords"
    for k, d in (("x", x), ("z", z)):
        want = {}
        for a, s in d.items():
            for b in s: want[b] = want.get(b, frozenset()) | {a}
        assert {v: s for v, s in dom[k].items() if s} == want, f"{k} corrections {dom[k]} instead of {want}"
    assert repr((x, z, layers)) == snap, "corrections modified"
    back = p.to_xzcorrections()
    norm = lambda d: {a: set(s) for a, s in d.items() if s}
    assert norm(back.x_corrections) == norm(x) and norm(back.z_corrections) == norm(z), f"extracted {back.x_corrections} {back.z_corrections} from {x} {z}"
    same_og(back.og, og)
    back.check_well_formed()

@P.bounded("incompatible orders are rejected", [FCO + "XZCorrections.to_pattern"], wf_cases, "orders violating the layers", quick=2, thorough=20)
def rejects(case):
    seed, n = case
    r = random.Random(seed)
    og, x, z, layers = candidate(r, n)
    if not well_formed(og, x, z, layers): return "skip"
    c = XZCorrections(og, x, z, tuple(frozenset(l) for l in layers))
    meas = [v for v in og.graph.nodes if v not in set(og.output_nodes)]
    o = meas[:]; r.shuffle(o)
    if r.random() < .3 and o: o.append(o[0])
    lay = {v: i for i, l in enumerate(layers) for v in l}
    ok = sorted(o) == sorted(meas) and all(lay[a] >= lay[b] for a, b in zip(o, o[1:]))
    with contextlib.redirect_stdout(io.StringIO()):
        try: c.to_pattern(o); got = True
        except XZCorrectionsGenericError: got = False
    assert got == ok, f"order {o} {'accepted' if got else 'rejected'} with layers {layers}"

# -- deductive units ------------------------------------------------------------------------------------------------
from gv import flowsym as FS
from gv import fsets as F
from graphix.flow import exceptions as X
z3 = boot.z3()

class W(FS.World):
    def __init__(self, eng):
        super().__init__(eng)
        f = lambda n: z3.Function(n, FS.Lab, F.B)
        self.doms = {"X": f("xdom"), "Z": f("zdom")}; self.corr = {p: z3.Function(p + "corr", FS.Lab, FS.Lab, F.B) for p in "XZ"}
        eng.extra = lambda i, y: z3.Implies(self.el(i, y), self.oc(y))
    def obj(self):
        m = {p: self.fmap(self.doms[p], self.corr[p]) for p in "XZ"}
        return F.Obj(XZCorrections, og=self.og, x_corrections=m["X"], z_corrections=m["Z"], partial_order_layers=self.layers)
    def clauses(self):
        L = FS.Lab
        d = {}
        for p in "XZ":
            dom, c = self.doms[p], self.corr[p]
            d[f"IncorrectKeys/{p}"] = (L, lambda u, dom=dom: z3.And(dom(u), z3.Not(self.oc(u))))
            d[f"IncorrectValues/{p}"] = (c, lambda u, x, dom=dom, c=c: z3.And(dom(u), c(u, x), z3.Not(self.node(x))))
        return d
    def order(self, p): return lambda u, k, l, v: z3.And(self.doms[p](u), self.corr[p](u, v), self.not_later(k, l, v))

def call(eng, w, reject, accept):
    try: w.obj().check_well_formed()
    except (X.XZCorrectionsError, X.PartialOrderError, X.PartialOrderLayerError) as e: reject(e)
    except (Unfit, AssertionError): raise
    except Exception as e: eng.prove(f"no other exception ({type(e).__name__})", False)
    else: accept()

def judge(eng, w, e):
    name = e.reason.name; cl = w.clauses(); either = lambda n: [cl[f"{n}/{p}"] for p in "XZ"]
    if isinstance(e, X.XZCorrectionsOrderError):
        k = eng.layer_index; u = e.node
        if k is None: return eng.prove(f"{name}: raised on an iteration", False)
        eng.prove(f"order of {name}: the named node belongs to a measured layer", z3.And(w.measured_layer(k), w.el(k, u.e)))
        eng.prove_exists(f"the order of the {name} corrections of the named node is violated", w.el, lambda l, v: w.order(name)(u.e, k, l, v))
    elif name in ("IncorrectKeys", "IncorrectValues"):
        eng.solver.push()
        for so, f in either(name): eng.forall(so, lambda *t, f=f: z3.Not(f(*t)))
        eng.prove(f"{name} is violated", False); eng.solver.pop()
    elif name == "Empty":
        eng.prove("no layers", w.n == 0)
        eng.prove_exists("Empty is violated", FS.Lab, lambda x: z3.Or(w.node(x), w.doms["X"](x), w.doms["Z"](x)))
    elif not FS.judge_layers(eng, w, e, name): eng.prove(f"{name}: known reason", False)

ROLES = [lambda seq: F.past(F.cur(), seq)]
FNS = [FCO + "XZCorrections.check_well_formed"]

@P.proof("what is rejected violates the named property", FNS, "z3")
def wf_sound(ob):
    def h(eng):
        w = W(eng)
        call(eng, w, lambda e: judge(eng, w, e), lambda: eng.cover("accepted"))
    FS.attempt(ob, "rejections name a violated property", 1, h, ROLES).close()

def wf_complete(ob, names):
    for name in names:
        def h(eng, name=name):
            w = W(eng); tab = {**w.layer_violations(), **w.clauses()}
            if name == "Empty":
                x = eng.label("wit"); eng.assume(z3.And(w.n == 0, z3.Or(w.node(x), w.doms["X"](x), w.doms["Z"](x)))); guides, layers = [x], []
            elif name.startswith("order"):
                u, v = eng.label("wit"), eng.label("other"); k, l = z3.Int(eng.fresh("layer_wit")), z3.Int(eng.fresh("layer_wit"))
                eng.assume(z3.And(w.n > 0, w.measured_layer(k), w.measured_layer(l), w.el(k, u), w.order(name[-1])(u, k, l, v))); guides, layers = [u, v], [k]
            else: guides, layers = FS.violate(eng, w, name, tab)
            if name.startswith("Incorrect"): eng.assume(w.n > 0)
            if not eng.feasible(): raise F.Infeasible
            eng.cover("violated"); eng.guides, eng.layer_guides = guides, layers
            call(eng, w, lambda e: None, lambda: eng.prove("corrections that violate it are not accepted", False))
            eng.prove("explored", True)
        FS.attempt(ob, name, 1, h, ROLES).close(["violated"])

for _g in (["IncorrectKeys/X", "IncorrectKeys/Z", "Empty", "FirstLayer"], ["IncorrectValues/X", "IncorrectValues/Z"], ["NthLayer/foreign", "NthLayer/repeated"], ["NthLayer/empty", "IncorrectNodes"], ["order X"], ["order Z"]):
    P.proof(f"corrections that violate {', '.join(_g)} are rejected", FNS, "z3")(lambda ob, g=_g: wf_complete(ob, g))

# ---- corrections to patterns and back, one element of each loop at a time
class Node:
    """An arbitrary node: nothing is known about it but its identity."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

class Emit:
    def __init__(self): self.cmds = []
    def add(self, c): self.cmds.append(c)
    def extend(self, *cs):
        for c in cs: self.cmds.extend([c] if hasattr(c, "kind") else list(c))

def kinds(cmds): return [c.kind.name for c in cmds]

@P.proof("realised commands, one element at a time", [FCO + "XZCorrections.to_pattern"], "loop contracts: opaque nodes, arbitrary corrections of the other nodes")
def realise_step(ob):
    import types
    from gv import loops
    from graphix.command import C, E, M, N, X, Z
    from graphix.states import BasicStates
    u, v, w, a, b = (Node(s) for s in "uvwab")
    m, m2 = Measurement.YZ(0.3), Measurement.XY(0.1)
    steps = [lambda k=k, **kw: loops.step(XZCorrections.to_pattern, k, **kw) for k in range(4)]
    def go(k, item, x=None, z=None, **kw):
        e = Emit()
        og = types.SimpleNamespace(measurements={v: m, w: m2}, input_nodes=[u], output_nodes=[b], output_cliffords={b: Clifford(9)})
        me = types.SimpleNamespace(og=og, x_corrections=x or {}, z_corrections=z or {})
        d = steps[k](**kw)(item, self=me, pattern=e)
        if d["__exit__"] != "next": raise Unfit("the loop stops")
        return e.cmds
    def only(cmds, ks):
        if not cmds or not set(kinds(cmds)) <= set(ks) or any(c.kind == CommandKind.M and (c.s_domain or c.t_domain) for c in cmds): raise Unfit("another loop")
        return cmds
    got = only(go(0, v), "N")
    ob.check("a node that is not an input is prepared once, in the plus state", len(got) == 1 and got[0].node is v and got[0].state == BasicStates.PLUS)
    got = only(go(1, (v, w)), "E")
    ob.check("an edge is one entanglement command", len(got) == 1 and set(got[0].nodes) == {v, w})
    got = only(go(3, (b, Clifford(9))), "C")
    ob.check("an output Clifford is one Clifford command", len(got) == 1 and got[0].node is b and got[0].clifford == Clifford(9))
    other = {w: {a, u}}
    for nx_ in range(4):
        for nz in range(4):
            xs, zs = set([a, b, u][:nx_]), set([b, u, a][:nz])
            for x, z in (({v: xs, **other}, {v: zs, **other}),) + (((dict(other), {v: zs}),) if not nx_ else ()) + ((({v: xs}, dict(other)),) if not nz else ()):
                cmds = only(go(2, v, x, z), "MXZ")
                ok = kinds(cmds).count("M") == 1 and cmds[0].kind == CommandKind.M and cmds[0].node is v and cmds[0].measurement == m
                for kind, want in ((CommandKind.X, xs), (CommandKind.Z, zs)):
                    c = [c for c in cmds if c.kind == kind]
                    ok = ok and all(set(k.domain) == {v} for k in c) and len(c) == len(want) and {k.node for k in c} == want
                ob.check(f"a node with {nx_} X-corrected and {nz} Z-corrected nodes: measured once with its description, then each correction once, conditioned on it "
                         f"({'v' if v in x else 'no'} X entry, {'v' if v in z else 'no'} Z entry)", ok)
    for j, kind in ((0, CommandKind.Z), (1, CommandKind.X)):
        e = Emit()
        d = loops.step(XZCorrections.to_pattern, 2, inner=[j])(a, pattern=e, measured_node=v)
        if len(e.cmds) != 1 or e.cmds[0].kind != kind: raise Unfit("another loop")
        ob.check(f"any number of corrected nodes, one of them: {kind.name} on it, conditioned on the measured node", d["__exit__"] == "next" and e.cmds[0].node is a and e.cmds[0].domain == {v})

@P.proof("extracted corrections, one command at a time", [FO + "StandardizedPattern.to_xzcorrections", FO + "_update_corrections"],
         "loop contracts: opaque nodes, arbitrary corrections found before")
def extract_step(ob):
    from gv import loops
    from graphix import optimization as O
    from graphix.command import M
    v, w, a, b, c = (Node(s) for s in "vwabc")
    f = need(O, "_update_corrections")
    def add(old, node, dom):
        new = {k: set(s) for k, s in old.items()}
        for d in dom: new.setdefault(d, set()).add(node)
        return new
    befores = ({}, {a: {w}}, {a: {w}, b: {v}}, {c: set()})
    for bi, before in enumerate(befores):
        for size in range(4):
            dom = set([a, b, c][:size])
            cur = {k: set(s) for k, s in before.items()}
            f(v, dom, cur)
            ob.check(f"a domain of size {size}, corrections found before #{bi}: each node of the domain corrects the node, the rest as before", cur == add(before, v, dom) and dom == set([a, b, c][:size]))
    for old in ({}, {a: {w}}, {a: set()}, {b: {w}}):
        cur = {k: set(s) for k, s in old.items()}
        d = loops.step(f, 0)(a, node=v, domain=None, correction=cur)
        ob.check(f"any size, one node of the domain, {sorted(map(repr, old.items()))} before", d["__exit__"] == "next" and d["correction"] == add(old, v, {a}))
    S = O.StandardizedPattern
    for s, t in ((set(), set()), ({a}, set()), (set(), {a}), ({a, b}, {b, c})):
        for x0, z0 in (({}, {}), ({a: {w}}, {b: {w}})):
            cmd = M(v, Measurement.YZ(0.3), set(s), set(t))
            x, z = ({k: set(q) for k, q in d.items()} for d in (x0, z0))
            loops.step(S.to_xzcorrections, 0)(cmd, x_corr=x, z_corr=z)
            ob.check(f"a measurement with domains {sorted(map(repr, s))}, {sorted(map(repr, t))} after {len(x0)} corrections: X corrections from its s-domain, Z from its t-domain",
                     x == add(x0, v, s) and z == add(z0, v, t) and cmd.s_domain == s and cmd.t_domain == t)
    for k in (1, 2):
        x, z = {a: {w}}, {b: {w}}
        loops.step(S.to_xzcorrections, k)((v, frozenset({a, c})), x_corr=x, z_corr=z)
        same = [d == o for d, o in ((x, {a: {w}}), (z, {b: {w}}))]
        if same.count(False) != 1: raise Unfit("another loop")
        isx = not same[0]
        ob.check(f"correction commands (loop {k}): each node of the domain corrects the node", (x if isx else z) == add({a: {w}} if isx else {b: {w}}, v, {a, c}))

@P.proof("open graphs of standard forms and assembly", [FO + "StandardizedPattern.graph", FO + "StandardizedPattern.to_opengraph", FO + "StandardizedPattern.to_xzcorrections", FCO + "XZCorrections.from_measured_nodes_mapping", FCO + "XZCorrections.to_pauliflow"],
         "every role of up to 3 nodes (opaque measurements), recording stand-ins for the callees")
def open_graphs(ob):
    """The open graph has the inputs and the prepared nodes, the edges, the ports, the measurements and the Clifford commands of the standard form; preparations in other states than |+> are
    refused.  The corrections are checked against the graph by the layers function (contract); keys that are not measured are refused."""
    import types
    from gv.chains import Ch
    from gv.extract import rebind
    from graphix import optimization as O, command as cm
    from graphix.flow import core as fc
    from graphix.states import BasicStates
    S = O.StandardizedPattern; ns = types.SimpleNamespace
    for roles in itertools.product(("in", "prep"), repeat=3):
        nodes = [5, 1, 8]; ins = tuple(v for v, r in zip(nodes, roles) if r == "in"); prep = [v for v, r in zip(nodes, roles) if r == "prep"]
        for es in ((), ((5, 1),), ((1, 8), (8, 5)), ((5, 1), (1, 8), (8, 5))):
            for k in range(4):
                for bad in (None, *range(len(prep))):
                    ms = [cm.M(v, Measurement.XY(.1 * i)) for i, v in enumerate(nodes[:k])]; outs = tuple(nodes[k:][::-1])
                    std = ns(input_nodes=ins, output_nodes=outs, n_list=tuple(cm.N(v, BasicStates.ONE if i == bad else BasicStates.PLUS) for i, v in enumerate(prep)), e_set=frozenset(frozenset(e) for e in es), m_list=tuple(ms), c_dict={v: Clifford.H for v in outs[:1]})
                    std.graph = lambda: S.graph(std)
                    try: og = S.to_opengraph(std); err = None
                    except Exception as e: og, err = None, e      # noqa: BLE001
                    if bad is not None: ok = isinstance(err, ValueError)
                    else: ok = err is None and set(og.graph.nodes) == set(nodes) and {frozenset(e) for e in og.graph.edges} == std.e_set and tuple(og.input_nodes) == ins and tuple(og.output_nodes) == outs and dict(og.measurements) == {m.node: m.measurement for m in ms} and dict(og.output_cliffords) == std.c_dict
                    ob.structural(f"roles {roles}, edges {es}, {k} measured, preparation {bad} in another state", ok)
    # assembly of the corrections
    og = Ch("graph"); got = []
    std = ns(m_list=(), x_dict={}, z_dict={}, to_opengraph=lambda: og)
    class XZ: from_measured_nodes_mapping = staticmethod(lambda *a, **k: (got.append((a, k)), "corrections")[1])
    x, y, m = Node("x"), Node("y"), Node("m")
    for ms, xd, zd, want in (((), {}, {}, ({}, {})), ((), {x: {m}}, {}, ({m: {x}}, {})), ((), {}, {x: {m}}, ({}, {m: {x}})), ((), {x: {m}, y: {m}}, {y: {m}}, ({m: {x, y}}, {m: {y}})),
                             ((ns(node=y, s_domain={m}, t_domain=set()),), {}, {}, ({m: {y}}, {})), ((ns(node=y, s_domain=set(), t_domain={m}),), {x: {y}}, {x: {m}}, ({y: {x}}, {m: {y, x}}))):
        std.m_list, std.x_dict, std.z_dict = ms, xd, zd; got.clear()
        try: r = rebind(S.to_xzcorrections, XZCorrections=XZ)(std); ok = r == "corrections" and len(got) == 1 and got[0][0] == (og, *want) and not got[0][1]
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"corrections of {len(ms)} measurements, {len(xd)} X and {len(zd)} Z commands: those collected, with the open graph", ok)
    for keys in itertools.product(("none", "empty", "measured", "other"), repeat=2):
        mk = lambda k: None if k == "none" else {} if k == "empty" else {(x if k == "measured" else y): {m}}
        xc, zc = map(mk, keys); seen = []; graph = ns(measurements={x: 1, m: 2})
        try:
            r = rebind(fc.XZCorrections.from_measured_nodes_mapping, XZCorrections=lambda *a: ("corrections", *a), _corrections_to_partial_order_layers=lambda *a: (seen.append(a), "layers")[1])(graph, xc, zc)
            ok = "other" not in keys and r == ("corrections", graph, xc or {}, zc or {}, "layers") and seen == [(graph, xc or {}, zc or {})]
        except XZCorrectionsGenericError: ok = "other" in keys and not seen
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"corrections given: X {keys[0]}, Z {keys[1]}", ok)
    # Pauli flow of corrections
    me = ns(og=Ch("og"), partial_order_layers=Ch("layers")); asked = []
    try: r = rebind(fc.XZCorrections.to_pauliflow, PauliFlow=lambda *a: ("flow", *a), _reconstruct_pauli_correction_function=lambda c: (asked.append(c is me), "cf")[1])(me); ok = r == ("flow", me.og, "cf", me.partial_order_layers) and asked == [True]
    except Exception: ok = False      # noqa: BLE001
    ob.structural("Pauli flow of corrections: the reconstructed correction function, with the graph and the layers of the corrections", ok)
