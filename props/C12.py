from __future__ import annotations
import itertools, random
import networkx as nx
from gv import boot, flowspec as S, gen as G  # noqa: F401
from gv.core import Prop, Unfit, need
from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.flow import exceptions as X
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph

FCO, FOG = "graphix/flow/core.py:", "graphix/opengraph.py:"
P = Prop("C12", "proof",
    'The three check_well_formed methods and is_focused are executed on arbitrary candidates (arbitrary graph, boundary, measurements, correction function and layers; loop contracts over arbitrary mappings): acceptance is proved equivalent to the published definition and a rejection names a violated proposition at a node that violates it.  Exhaustive enumeration over small graphs replays concrete counterexamples (bounded).',
    ['the correction function, the layers, the graph and the boundary are arbitrary finite sets and mappings (uninterpreted predicates); folds over sets are pointwise parities', 'rejections of three or more separate defects at once are covered by one obligation per defect'], ["z3"])

CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}

def meas_for(kind):
    if kind == "causal": return lambda r: BlochMeasurement(G.angle(r), Plane.XY if r.random() < .95 else Plane.XZ)
    if kind == "gflow": return lambda r: BlochMeasurement(G.angle(r, .3), r.choice(list(Plane)))
    return lambda r: r.choice([Plane.XY, Plane.XZ, Plane.YZ, Axis.X, Axis.Y, Axis.Z]) if r.random() < .3 else G.measurement(r, .5, .05)

def compare(og, cf, layers, kind):
    flow = CLS[kind](og, cf, layers)
    bad = S.violations(og, cf, layers, kind)
    try: flow.check_well_formed(); err = None
    except X.FlowError as e: err = e
    desc = lambda: f"{kind}: inputs {og.input_nodes} outputs {og.output_nodes} edges {list(og.graph.edges)} labels {dict(og.measurements)} correction {cf} layers {layers}"
    assert (err is None) == (not bad), f"{'accepted' if err is None else f'rejected ({err!r})'} although the violated propositions are {bad}; {desc()}"
    assert flow.is_well_formed() == (not bad)
    if err is not None:
        reason = getattr(err, "reason", None)
        name = getattr(reason, "name", None)
        node = getattr(err, "node", None)
        # the named proposition is violated (at the named node)
        gen = {g for g, v in bad if v is None}
        if isinstance(err, (X.FlowPropositionError, X.FlowPropositionOrderError)):
            # (on a candidate that is not a partial order of the measured nodes, "later" is not defined and the named proposition is not judged)
            if not gen: assert (name, node) in bad, f"{name} at {node} is named but the violated propositions are {bad}; {desc()}"
        elif name == "XYPlane": assert gen or any(p == name for p, _ in bad), f"{name}: {bad}; {desc()}"
        else: assert name in gen, f"{name} is named but the violated propositions are {bad}; {desc()}"
    return not bad

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]), lambda r: r.choice(["causal", "gflow", "pauli", "pauli"]))

def start(r, n, kind):
    """an open graph with a (mostly valid) candidate"""
    if not n: return OpenGraph(nx.Graph(), [], [], {}), {}, []
    if kind == "causal" and r.random() < .7: og = G.flow_graph(r, r.randrange(1, 4), 2, meas=meas_for("causal"))
    else: og = G.opengraph(r, n, meas_for(kind))
    f = None
    og2 = og
    try:
        f = {"causal": lambda: og2.to_causalflow_or_none(), "gflow": lambda: og2.to_gflow_or_none(), "pauli": lambda: og2.to_pauliflow_or_none()}[kind]()
    except Exception:
        pass
    if f is not None:
        return og, {k: set(v) for k, v in f.correction_function.items()}, [set(l) for l in f.partial_order_layers]
    outs = set(og.output_nodes); meas = [v for v in og.graph if v not in outs]
    nodes = [v for v in og.graph if v not in set(og.input_nodes)]
    cf = {v: {u for u in nodes if r.random() < .4} for v in meas}
    r.shuffle(meas)
    layers = [outs] if outs else []
    while meas:
        k = r.randrange(1, len(meas) + 1)
        layers.append(set(meas[:k])); meas = meas[k:]
    return og, cf, layers

def mutate(r, og, cf, layers):
    nodes = list(og.graph.nodes); anyn = nodes + [max(nodes, default=0) + 2]
    u = r.randrange(12)
    if u <= 3 and cf and nodes: cf[r.choice(sorted(cf))] ^= {r.choice(nodes)}
    elif u == 4 and len(cf) > 1:
        a, b = r.sample(sorted(cf), 2); cf[a] ^= cf[b]
    elif u == 5 and layers:
        a = r.randrange(len(layers))
        if layers[a]:
            v = r.choice(sorted(layers[a])); layers[a].discard(v); layers[r.randrange(len(layers))].add(v)
            if r.random() < .8: layers[:] = [l for l in layers if l]
    elif u == 6 and len(layers) > 2:
        i = r.randrange(1, len(layers) - 1); layers[i:i + 2] = [layers[i] | layers[i + 1]]
    elif u == 7 and len(layers) > 2:
        i = r.randrange(1, len(layers) - 1); layers[i], layers[i + 1] = layers[i + 1], layers[i]
    elif u == 8 and layers: r.choice(layers).add(r.choice(anyn))
    elif u == 9: cf[r.choice(anyn)] = {r.choice(anyn)}
    elif u == 10 and cf and r.random() < .3: cf.pop(r.choice(sorted(cf)))
    elif u == 11 and r.random() < .3: layers.insert(r.randrange(len(layers) + 1), set())

@P.bounded("well-formedness", [FCO + "PauliFlow.check_well_formed", FCO + "GFlow.check_well_formed", FCO + "CausalFlow.check_well_formed", FCO + "PauliFlow.is_well_formed", FCO + "_check_flow_general_properties",
                               FCO + "_check_correction_function_domain", FCO + "_check_correction_function_image", FCO + "PauliFlow.node_measurement_label", FCO + "GFlow.node_measurement_label", FOG + "OpenGraph.odd_neighbors", FOG + "OpenGraph.neighbors"],
           cases, "flows found on, and random candidates for, open graphs up to 6 (causal: 12) nodes, with 0..3 mutations", quick=12, thorough=150)
def wf(case):
    seed, n, kind = case
    r = random.Random(seed)
    og, cf, layers = start(r, n, kind)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])): mutate(r, og, cf, layers)
    cf = {k: frozenset(v) for k, v in cf.items()}; layers = [frozenset(l) for l in layers]
    compare(og, cf, layers, kind)

def small(rng, tier):
    graphs = [g for n in (1, 2, 3) for g in ([*itertools.product((0, 1), repeat=n * (n - 1) // 2)])]
    for kind in ("causal", "gflow", "pauli"):
        for n in (1, 2, 3):
            pairs = list(itertools.combinations(range(n), 2))
            for bits in itertools.product((0, 1), repeat=len(pairs)):
                for nout in range(n + 1):
                    for ins in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(2)):
                        yield [kind, n, [list(p) for p, b in zip(pairs, bits) if b], list(range(n - nout, n)), list(ins), rng.randrange(2 ** 40)]

@P.bounded("all correction functions of small graphs", [FCO + "PauliFlow.check_well_formed", FCO + "GFlow.check_well_formed", FCO + "CausalFlow.check_well_formed"], small,
           "all correction functions and weak orders on graphs with at most 3 nodes (labels sampled)", quick=8, thorough=60)
def all_small(case):
    kind, n, edges, outs, ins, seed = case
    r = random.Random(seed)
    g = nx.Graph(); g.add_nodes_from(range(n)); g.add_edges_from(map(tuple, edges))
    meas = [v for v in range(n) if v not in outs]
    for _ in range(3):
        og = OpenGraph(g, ins, outs, {v: meas_for(kind)(r) for v in meas})
        subsets = [set(s) for k in range(n + 1) for s in itertools.combinations(range(n), k)]
        orders = {tuple(tuple(sorted(v for v in meas if lv[v] == i)) for i in sorted(set(lv.values()))) for t in itertools.product(range(len(meas)), repeat=len(meas)) for lv in [dict(zip(meas, t))]}
        for f in itertools.product(subsets, repeat=len(meas)):
            if len(meas) > 1 and r.random() > .12: continue
            for o in orders:
                layers = ([frozenset(outs)] if outs else []) + [frozenset(l) for l in o]
                compare(og, dict(zip(meas, map(frozenset, f))), layers, kind)

@P.bounded("focusing", [FCO + "PauliFlow.is_focused"], cases, "flows and random correction functions on open graphs up to 6 nodes", quick=5, thorough=50)
def foc(case):
    seed, n, kind = case
    r = random.Random(seed)
    og, cf, layers = start(r, n, kind)
    for _ in range(r.choice([0, 0, 1, 2])):
        if cf:
            v = r.choice(sorted(cf)); w = r.choice(sorted(og.graph)); cf[v] ^= {w}
            if r.random() < .5: cf[v] ^= cf[r.choice(sorted(cf))]
    got = CLS[kind](og, cf, layers).is_focused(); want = S.focused(og, cf, kind == "pauli")
    assert got == want, f"is_focused = {got} for {kind} {cf} labels {dict(og.measurements)} edges {list(og.graph.edges)}"

@P.bounded("neighbourhoods", [FOG + "OpenGraph.odd_neighbors", FOG + "OpenGraph.neighbors"], cases, "random sets of nodes", quick=2, thorough=10)
def nb(case):
    seed, n, kind = case
    r = random.Random(seed)
    og = G.opengraph(r, max(n, 1)); adj = S.adjacency(og)
    for _ in range(4):
        s = {v for v in og.graph if r.random() < .5}; t = set(s)
        assert og.odd_neighbors(s) == S.odd(adj, s) and og.neighbors(s) == set().union(*(adj[v] for v in s)) and s == t

# -- deductive units ------------------------------------------------------------------------------------------------
from gv import flowsym as FS
from gv import fsets as F
z3 = boot.z3()
X_, Y_, Z_ = FS.ix(Axis.X), FS.ix(Axis.Y), FS.ix(Axis.Z)

def clauses(w, kind):
    """proposition -> (sorts, formula): violated at node u of layer k iff the formula holds for some further terms"""
    cf, odd, nb, lab, plane, NL = w.cf, w.odd, w.nb, w.lab, w.plane, w.not_later
    two = (w.el,)
    if kind == "causal": return {
        "XYPlane": ((), lambda u, k: plane(u) != 0),
        "C1": ((), lambda u, k: z3.Not(nb(u, u))),
        "C2": (two, lambda u, k, l, v: z3.And(cf(u, v), NL(k, l, v))),
        "C3": (two, lambda u, k, l, v: z3.And(nb(u, v), v != u, NL(k, l, v)))}
    if kind == "gflow": return {
        "G1": (two, lambda u, k, l, v: z3.And(cf(u, v), v != u, NL(k, l, v))),
        "G2": (two, lambda u, k, l, v: z3.And(odd(u, v), v != u, NL(k, l, v))),
        "G3": ((), lambda u, k: z3.And(plane(u) == 0, z3.Not(z3.And(z3.Not(cf(u, u)), odd(u, u))))),
        "G4": ((), lambda u, k: z3.And(plane(u) == 1, z3.Not(z3.And(cf(u, u), odd(u, u))))),
        "G5": ((), lambda u, k: z3.And(plane(u) == 2, z3.Not(z3.And(cf(u, u), z3.Not(odd(u, u))))))}
    return {
        "P1": (two, lambda u, k, l, v: z3.And(cf(u, v), v != u, lab(v) != X_, lab(v) != Y_, NL(k, l, v))),
        "P2": (two, lambda u, k, l, v: z3.And(odd(u, v), v != u, lab(v) != Y_, lab(v) != Z_, NL(k, l, v))),
        "P3": (two, lambda u, k, l, v: z3.And(v != u, lab(v) == Y_, cf(u, v) != odd(u, v), NL(k, l, v))),
        "P4": ((), lambda u, k: z3.And(lab(u) == 0, z3.Not(z3.And(z3.Not(cf(u, u)), odd(u, u))))),
        "P5": ((), lambda u, k: z3.And(lab(u) == 1, z3.Not(z3.And(cf(u, u), odd(u, u))))),
        "P6": ((), lambda u, k: z3.And(lab(u) == 2, z3.Not(z3.And(cf(u, u), z3.Not(odd(u, u)))))),
        "P7": ((), lambda u, k: z3.And(lab(u) == X_, z3.Not(odd(u, u)))),
        "P8": ((), lambda u, k: z3.And(lab(u) == Z_, z3.Not(cf(u, u)))),
        "P9": ((), lambda u, k: z3.And(lab(u) == Y_, cf(u, u) == odd(u, u)))}

def general_clauses(w):
    return {"IncorrectCorrectionFunctionDomain": (FS.Lab, lambda x: w.cfdom(x) != w.oc(x)),
            "IncorrectCorrectionFunctionImage": ((FS.Lab, FS.Lab), lambda u, x: z3.And(w.cfdom(u), w.cf(u, x), z3.Not(z3.And(w.node(x), z3.Not(w.inp(x)))))),
            **w.layer_violations()}

def roles_for(kind):
    if kind != "pauli": return [lambda seq: F.past(F.cur(), seq)]
    return [lambda seq: F.past(F.cur(), seq), lambda seq: F.past(F.cur(), seq, lambda x: z3.Function("lab", FS.Lab, FS.E3)(x) == Y_, "past_y")]

def flow_of(w, kind): return F.Obj(CLS[kind], og=w.og, correction_function=w.fmap(w.cfdom, w.cf), partial_order_layers=w.layers)

def run(eng, w, kind, reject, accept=None):
    """check_well_formed on the symbolic candidate"""
    try: flow_of(w, kind).check_well_formed()
    except X.FlowError as e: reject(e)
    except (Unfit, AssertionError): raise
    except Exception as e: eng.prove(f"no other exception ({type(e).__name__})", False)
    else: (accept or (lambda: None))()

def start_world(eng):
    w = FS.World(eng)
    eng.extra = lambda i, y: z3.Implies(w.el(i, y), w.oc(y))
    return w

def judge(eng, w, kind, e):
    """the rejection names a violated property (at the named node)"""
    name = e.reason.name; u = getattr(e, "node", None); P_ = eng.prove_exists
    if u is not None:
        k = eng.layer_index
        if k is None: return eng.prove(f"{name}: raised on an iteration", False)
        eng.prove(f"{name}: the named node belongs to a measured layer", z3.And(w.measured_layer(k), w.el(k, u.e)))
        if name == "C0":
            x = eng.label("single"); eng.solver.push(); eng.assume(w.cf(u.e, x)); eng.forall(FS.Lab, lambda y: z3.Implies(w.cf(u.e, y), y == x))
            eng.prove("C0 is violated at the named node", False); eng.solver.pop(); return
        so, f = clauses(w, kind)[name]
        if so: P_(f"{name} is violated at the named node", so, lambda *t: f(u.e, k, *t))
        else: eng.prove(f"{name} is violated at the named node", f(u.e, k))
        return
    g = general_clauses(w)
    if name in g: P_(f"{name} is violated", *g[name])
    elif name == "XYPlane": P_("XYPlane is violated", FS.Lab, lambda x: z3.And(w.cfdom(x), w.plane(x) != 0))
    elif name == "Empty": eng.prove("no layers", w.n == 0); P_("Empty is violated", FS.Lab, w.node)
    elif not FS.judge_layers(eng, w, e, name): eng.prove(f"{name}: known reason", False)

def soundness(ob, kind):
    def h(eng):
        w = start_world(eng)
        run(eng, w, kind, lambda e: judge(eng, w, kind, e))
        eng.cover("end")
    FS.attempt(ob, f"{kind}: rejections name a violated property", len(roles_for(kind)), h, roles_for(kind)).close()

GENERAL = ["IncorrectCorrectionFunctionDomain", "IncorrectCorrectionFunctionImage", "FirstLayer", "NthLayer/foreign", "NthLayer/repeated", "NthLayer/empty", "IncorrectNodes", "Empty"]
GROUPS = {"causal": [GENERAL, ["C0/none", "C0/many", "XYPlane", "C1", "C2", "C3"]], "gflow": [GENERAL, [f"G{i}" for i in range(1, 6)]],
          "pauli": [GENERAL[:4], GENERAL[4:], ["P1", "P2", "P3"], ["P4", "P5", "P6"], ["P7", "P8", "P9"]]}

def completeness(ob, kind, names):
    for name in names:
        def h(eng, name=name):
            w = start_world(eng); L = lambda n: eng.label(n)
            gs = general_clauses(w); guides, layers = [], []
            if name in gs or name in FS.LAYER_CLAUSES: guides, layers = FS.violate(eng, w, name, gs)
            elif name == "Empty":
                x = L("wit"); eng.assume(z3.And(w.n == 0, w.node(x))); guides = [x]
            else:
                eng.assume(w.n > 0)
                u = L("wit"); k = z3.Int(eng.fresh("layer_wit")); guides, layers = [u], [k]
                eng.assume(z3.And(w.measured_layer(k), w.el(k, u), w.oc(u)))
                if name == "C0/none": eng.forall(FS.Lab, lambda y: z3.Not(w.cf(u, y)))
                elif name == "C0/many":
                    a, b = L("a"), L("b"); eng.assume(z3.And(w.cf(u, a), w.cf(u, b), a != b))
                else:
                    so, f = clauses(w, kind)[name]
                    if so:
                        l, v = z3.Int(eng.fresh("layer_wit")), L("other"); eng.assume(z3.And(w.measured_layer(l), f(u, k, l, v))); guides.append(v)
                    else: eng.assume(f(u, k))
            if not eng.feasible(): raise F.Infeasible
            eng.cover("violated")
            eng.guides, eng.layer_guides = guides, layers
            run(eng, w, kind, lambda e: None, lambda: eng.prove("a candidate that violates it is not accepted", False))
            eng.prove("explored", True)
        FS.attempt(ob, f"{kind}: {name}", len(roles_for(kind)), h, roles_for(kind)).close(["violated"])

CWF = "check_well_formed"
for _k, _c in (("causal", "CausalFlow"), ("gflow", "GFlow"), ("pauli", "PauliFlow")):
    _fns = [FCO + f"{_c}.check_well_formed", FCO + "_check_flow_general_properties", FCO + "_check_correction_function_domain", FCO + "_check_correction_function_image", FCO + ("PauliFlow" if _k == "pauli" else "GFlow") + ".node_measurement_label"]
    P.proof(f"{_c}: what is rejected violates the named property", _fns, "z3")(lambda ob, k=_k: soundness(ob, k))
    for _i, _g in enumerate(GROUPS[_k]): P.proof(f"{_c}: a candidate that violates {_g[0]}..{_g[-1]} is rejected", _fns, "z3")(lambda ob, k=_k, g=_g: completeness(ob, k, g))

def focus_clauses(w, kind):
    cf, odd = w.cf, w.odd
    if kind == "pauli":
        lab = w.lab; inl = lambda v, *ls: z3.Or(*[lab(v) == FS.ix(l) for l in ls])
        return {"correction set": lambda u, v: z3.And(cf(u, v), z3.Not(inl(v, Plane.XY, Axis.X, Axis.Y))), "odd neighbourhood": lambda u, v: z3.And(odd(u, v), z3.Not(inl(v, Plane.XZ, Plane.YZ, Axis.Y, Axis.Z))),
                "Y measurement": lambda u, v: z3.And(lab(v) == Y_, cf(u, v) != odd(u, v))}
    return {"correction set": lambda u, v: z3.And(cf(u, v), w.plane(v) != 0), "odd neighbourhood": lambda u, v: z3.And(odd(u, v), w.plane(v) == 0)}

def focusing(ob, kind):
    eng = F.FEngine(ob, f"{kind}: is_focused")
    def violated(w): return (FS.Lab, FS.Lab), lambda u, v: z3.And(w.cfdom(u), w.oc(v), u != v, z3.Or(*[f(u, v) for f in focus_clauses(w, kind).values()]))
    def call(w): return flow_of(w, kind).is_focused()
    def h():
        w = FS.World(eng); r = call(w)
        if r is True: return
        eng.prove("a truth value", r is False)
        eng.prove_exists("False means that the definition is violated", *violated(w)); eng.cover("unfocused")
    eng.explore(h)
    for name in focus_clauses(FS.World(_Probe()), kind):
        def h2(name=name):
            w = FS.World(eng); u, v = eng.label("wit"), eng.label("other")
            eng.assume(z3.And(w.cfdom(u), w.oc(v), u != v, focus_clauses(w, kind)[name](u, v)))
            eng.guides = [u, v]; eng.cover(name)
            r = call(w)
            eng.prove(f"not focused ({name}) is recognised", r is False)
        eng.explore(h2)
    eng.close(["unfocused", *focus_clauses(FS.World(_Probe()), kind)])

class _Probe:
    def assume(self, *a): pass
    forall = know = assume
    def choose(self): return False
    def feasible(self): return True

for _k, _c in (("gflow", "GFlow"), ("pauli", "PauliFlow")):
    P.proof(f"{_c}.is_focused", [FCO + "PauliFlow.is_focused", FCO + ("PauliFlow" if _k == "pauli" else "GFlow") + ".node_measurement_label"], "z3")(lambda ob, k=_k: focusing(ob, k))

@P.proof("neighbourhood folds", [FOG + "OpenGraph.odd_neighbors", FOG + "OpenGraph.neighbors"], "z3")
def neighbourhood(ob):
    """both are folds over the nodes: of the symmetric difference, resp. the union, of their neighbourhoods, from the empty set"""
    adj = z3.Function("adj", FS.Lab, FS.Lab, F.B)
    for name, step in (("odd_neighbors", lambda S, x: lambda y: z3.Xor(S(y), adj(x, y))), ("neighbors", lambda S, x: lambda y: z3.Or(S(y), adj(x, y)))):
        eng = F.FEngine(ob, name)
        def h():
            graph = F.Obj(None, neighbors=lambda u: F.FSeq(lambda y: adj(u.e, y)), adj=F.FMap(lambda e: z3.BoolVal(True), lambda e: F.FSet(lambda y: adj(e, y))))
            og = F.Obj(OpenGraph, graph=graph); c = F.Fold(step)
            r = getattr(og, name)(c)
            y = eng.label("y")
            if not isinstance(r, F.FSet) or c.final is None: raise Unfit("result")
            eng.prove("the accumulated set is returned", r.mem(y) == c.final(y)); eng.cover("result")
        eng.explore(h); eng.close(["result"])

@P.proof("boolean form of the check", ["graphix/flow/core.py:PauliFlow.is_well_formed"], "every outcome of the check")
def wf_bool(ob):
    from gv.extract import raw
    from graphix.flow import core as FC_, exceptions as X_
    for cls in (FC_.CausalFlow, FC_.GFlow, FC_.PauliFlow):
        f = raw(cls.is_well_formed)
        class Fake:
            def __init__(self, exc): self.exc = exc
            def check_well_formed(self):
                if self.exc is not None: raise self.exc
        ob.structural(f"{cls.__name__}: no complaint, True", f(Fake(None)) is True)
        subs = [X_.FlowError]
        for s in subs: subs.extend(c for c in s.__subclasses__() if c not in subs)
        for e in subs:
            ob.structural(f"{cls.__name__}: {e.__name__}, False", f(Fake(e.__new__(e))) is False)
        try: f(Fake(ZeroDivisionError())); ok = False
        except ZeroDivisionError: ok = True
        ob.structural(f"{cls.__name__}: another error is not taken for an ill-formed flow", ok)
