from __future__ import annotations
import itertools, random
import networkx as nx
import numpy as np
from gv import boot, flowspec as S, gen as G, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from graphix.clifford import Clifford
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError
from graphix.fundamentals import Axis, Plane
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph

FCO, FOG, FP = "graphix/flow/core.py:", "graphix/opengraph.py:", "graphix/pattern.py:"
P = Prop("C14", "proof",
    'The corrections a flow generates (X on the correction set, Z on its odd neighbourhood, minus the measured node) are proved for arbitrary flows of the three kinds, and so is the reading of a gflow/causal flow off corrections.  Every branch of the generated pattern is compared, as a linear map on all inputs, with the post-selected open graph computed by an independent simulator; flows are those found by the library and random valid ones (bounded).',
    ['the correction function, the layers, the graph and the boundary are arbitrary finite sets and mappings (uninterpreted predicates); folds over sets are pointwise parities', 'strong determinism of corrections derived from a flow: the published theorems (Danos-Kashefi 2006, Browne et al. 2007, Simmons 2021) applied to the proved corrections; also exercised by the bounded units'], ["z3"])

CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}
def meas_for(r, kind):
    if kind == "causal": return lambda r: BlochMeasurement(G.angle(r), Plane.XY)
    if kind == "gflow": return lambda r: BlochMeasurement(G.angle(r, .2), r.choices(list(Plane), (3, 1, 1))[0])
    q = r.choice([.2, .5, .8])
    return lambda r: G.measurement(r, q, .0, (Plane.XY, Plane.XY, Plane.XZ, Plane.YZ))

def random_flow(r, og, kind):
    """A random valid flow of the given kind or None: random greedy choice of layers and of admissible correction sets."""
    adj = S.adjacency(og); ins = set(og.input_nodes); outs = set(og.output_nodes); nodes = list(og.graph.nodes)
    lab = {v: S.label(m, kind == "pauli") for v, m in og.measurements.items()}
    done = set(outs); layers = [frozenset(outs)] if outs else []; todo = [v for v in nodes if v not in outs]; cf = {}
    cand = [v for v in nodes if v not in ins]
    while todo:
        ok = []
        for v in todo:
            sets = []
            for k in range(len(cand) + 1):
                for c in itertools.combinations(cand, k):
                    c = frozenset(c)
                    if kind == "causal" and len(c) != 1: continue
                    if kind != "pauli" and not c <= done | {v}: continue
                    if not S.propositions(og, {v: c}, [done, set(todo)], kind, v): sets.append(c)
            if sets: ok.append((v, sets))
        if not ok: return None
        take = r.sample(ok, r.randrange(1, len(ok) + 1)) if r.random() < .7 else ok
        for v, sets in take: cf[v] = r.choice(sets)
        new = frozenset(v for v, _ in take)
        layers.append(new); done |= new; todo = [v for v in todo if v not in new]
    f = CLS[kind](og, cf, tuple(layers))
    return f

def start(seed, n, kind):
    r = random.Random(seed)
    if kind == "causal" and r.random() < .6: og = G.flow_graph(r, r.randrange(1, 4), 2, meas=meas_for(r, kind))
    else:
        no = r.randrange(1, n // 2 + 2) if n else 0
        no = min(no, n)
        og = G.opengraph(r, n, meas_for(r, kind), r.randrange(0, no + 1), no) if n else OpenGraph(nx.Graph(), [], [], {})
    if r.random() < .4 and og.output_nodes:
        og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {v: Clifford(r.randrange(24)) for v in og.output_nodes if r.random() < .6})
    if r.random() < .5 and len(og.graph) <= 5: f = random_flow(r, og, kind)
    else: f = {"causal": lambda: og.to_causalflow_or_none(), "gflow": lambda: og.to_gflow_or_none(), "pauli": lambda: og.to_pauliflow_or_none()}[kind]()
    return r, og, f

def desc(f): return f"correction {dict(f.correction_function)} layers {f.partial_order_layers} inputs {f.og.input_nodes} outputs {f.og.output_nodes} edges {list(f.og.graph.edges)} labels {dict(f.og.measurements)}"

def ogmap(og):
    u = psim.opengraph_map(og)
    k = len(og.output_nodes)
    for i, v in enumerate(og.output_nodes):
        if v in og.output_cliffords:
            t = u.reshape((2,) * k + (-1,))
            t = np.moveaxis(np.tensordot(psim.clifford_matrix(og.output_cliffords[v]), t, axes=(1, i)), 0, i); u = t.reshape(2 ** k, -1)
    return u

def deterministic(r, p, og, what):
    p.check_runnability()
    assert list(p.input_nodes) == list(og.input_nodes) and list(p.output_nodes) == list(og.output_nodes)
    want = ogmap(og); n = len(og.measurements)
    for o in psim.outcomes_iter(psim.measured(p), 32, r):
        got, _ = psim.branch(p, o)
        assert M.phase_equal(got, want), f"branch {o} differs from the post-selected graph; {what()}"

def cases(rng, tier):
    for k in CLS: yield [1, 0, k]
    yield from G.seeds(rng, lambda r: r.choice([1, 2, 3, 4, 4, 5, 5, 6]), lambda r: r.choice(["causal", "gflow", "gflow", "pauli", "pauli"]))

TOX = [FCO + "PauliFlow.to_xzcorrections", FCO + "GFlow.to_xzcorrections", FCO + "CausalFlow.to_xzcorrections", FCO + "XZCorrections.to_pattern"]
@P.bounded("determinism from flows", TOX, cases, "found and random flows on open graphs up to 6 (causal: 12) nodes, all (at most 32) branches", quick=12, thorough=150)
def det(case):
    seed, n, kind = case
    r, og, f = start(seed, n, kind)
    if f is None: return "skip"
    c = f.to_xzcorrections(); c.check_well_formed()
    assert c.og == og
    deterministic(r, c.to_pattern(), og, lambda: desc(f))
    # corrections are the prescribed ones: the correction set and its odd neighbourhood, restricted to the future
    adj = S.adjacency(og); lay = {v: i for i, l in enumerate(f.partial_order_layers) for v in l}
    for v, s in f.correction_function.items():
        fut = {u for u in og.graph if lay[u] < lay[v]}
        x, z = set(s) & fut, S.odd(adj, set(s)) & fut
        gx, gz = set(c.x_corrections.get(v, ())), set(c.z_corrections.get(v, ()))
        assert gx == x and gz == z, f"corrections of {v}: X {gx} Z {gz} instead of X {x} Z {z}; {desc(f)}"

@P.bounded("patterns of open graphs", [FOG + "OpenGraph.to_pattern", *TOX], cases, "open graphs up to 6 (causal: 12) nodes", quick=8, thorough=100)
def topat(case):
    seed, n, kind = case
    r, og, f = start(seed, n, kind)
    if r.random() < .5: og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, {v: m.to_bloch() if isinstance(m, PauliMeasurement) and r.random() < .5 else m for v, m in og.measurements.items()}, og.output_cliffords)
    try: p = og.to_pattern()
    except Exception as e:
        assert type(e).__name__ == "OpenGraphError", repr(e)
        assert S.max_delayed(og, "pauli") is None, f"no pattern for an open graph with Pauli flow: {list(og.graph.edges)} {og.input_nodes} {og.output_nodes} {dict(og.measurements)}"
        return
    deterministic(r, p, og, lambda: f"inputs {og.input_nodes} outputs {og.output_nodes} edges {list(og.graph.edges)} labels {dict(og.measurements)}")

def same_og(a, b):
    assert set(a.graph) == set(b.graph) and {frozenset(e) for e in a.graph.edges} == {frozenset(e) for e in b.graph.edges}, "graph"
    assert list(a.input_nodes) == list(b.input_nodes) and list(a.output_nodes) == list(b.output_nodes), "inputs or outputs"
    assert dict(a.measurements) == dict(b.measurements), f"measurements {a.measurements} {b.measurements}"
    trim = lambda d: {k: v for k, v in d.items() if v != Clifford.I}
    assert trim(a.output_cliffords) == trim(b.output_cliffords), "output Cliffords"

BACK = [FCO + "XZCorrections.to_causalflow", FCO + "XZCorrections.to_gflow", FCO + "XZCorrections.to_pauliflow", FCO + "_reconstruct_pauli_correction_function", FP + "Pattern.to_opengraph",
        FP + "Pattern.to_xzcorrections", FP + "Pattern.to_causalflow", FP + "Pattern.to_gflow", FP + "Pattern.to_pauliflow"]
@P.bounded("recovering flows", BACK, cases, "patterns of found and random flows on open graphs up to 6 (causal: 12) nodes", quick=10, thorough=120)
def back(case):
    seed, n, kind = case
    r, og, f = start(seed, n, kind)
    if f is None: return "skip"
    f_found = f == {"causal": lambda: og.to_causalflow_or_none(), "gflow": lambda: og.to_gflow_or_none(), "pauli": lambda: og.to_pauliflow_or_none()}[kind]()
    c = f.to_xzcorrections(); p = c.to_pattern()
    norm = lambda d: {a: set(s) for a, s in d.items() if s}
    same_og(p.to_opengraph(), og)
    c2 = p.to_xzcorrections(); same_og(c2.og, og)
    assert norm(c2.x_corrections) == norm(c.x_corrections) and norm(c2.z_corrections) == norm(c.z_corrections), f"corrections; {desc(f)}"
    for src in ("corrections", "pattern"):
        obj = c if src == "corrections" else p
        for k in ({"causal": ("causal", "gflow", "pauli"), "gflow": ("gflow", "pauli"), "pauli": ("pauli",)}[kind]):
            try: g = {"causal": lambda: obj.to_causalflow(), "gflow": lambda: obj.to_gflow(), "pauli": lambda: obj.to_pauliflow()}[k]()
            except FlowError as e:
                # a pattern only keeps the dependencies: a Pauli flow whose layers are not the minimal ones may not be compatible with them (documented error)
                if k == "pauli" and src == "pattern" and not f_found: continue
                raise AssertionError(f"no {k} flow is recovered from the {src} of a {kind} flow ({e!r}); {desc(f)}") from e
            lay = [set(l) for l in g.partial_order_layers]; cf = {a: set(s) for a, s in g.correction_function.items()}
            same_og(g.og, og)
            bad = S.violations(g.og, cf, lay, k)
            assert not bad, f"the {k} flow {cf} with {lay} recovered from the {src} violates {bad}; {desc(f)}"
            if k != "pauli": assert cf == {a: set(s) for a, s in f.correction_function.items()}, f"the {k} flow recovered from the {src} is {cf}; {desc(f)}"
            c3 = g.to_xzcorrections()
            assert norm(c3.x_corrections) == norm(c.x_corrections) and norm(c3.z_corrections) == norm(c.z_corrections), f"corrections of the recovered {k} flow: X {c3.x_corrections} Z {c3.z_corrections} instead of X {c.x_corrections} Z {c.z_corrections}; {desc(f)}"

def badc(rng, tier): yield from G.seeds(rng, lambda r: r.choice([2, 3, 3, 4, 4, 5]), lambda r: r.choice(["causal", "gflow", "pauli", "pauli"]))

@P.bounded("corrections without flow", BACK[:4], badc, "corrections mutated in one place: whatever is returned is a flow with these corrections, an error means there is none", quick=8, thorough=100)
def noflow(case):
    seed, n, kind = case
    r, og, f = start(seed, n, kind)
    if f is None: return "skip"
    c = f.to_xzcorrections()
    x = {a: set(s) for a, s in c.x_corrections.items()}; z = {a: set(s) for a, s in c.z_corrections.items()}
    nodes = list(og.graph)
    if not og.measurements: return "skip"
    for _ in range(r.choice([1, 1, 2])):
        d = r.choice([x, z]); v = r.choice(sorted(og.measurements)); d.setdefault(v, set()).symmetric_difference_update({r.choice(nodes)})
    c = XZCorrections(og, x, z, c.partial_order_layers)
    try: c.check_well_formed()
    except Exception: return "skip"
    norm = lambda d: {a: set(s) for a, s in d.items() if s}
    ks = [k for k in ("causal", "gflow", "pauli") if k == "pauli" or all(isinstance(m, BlochMeasurement) for m in og.measurements.values())]
    for k in ks:
        try: g = {"causal": lambda: c.to_causalflow(), "gflow": lambda: c.to_gflow(), "pauli": lambda: c.to_pauliflow()}[k]()
        except FlowError: g = None
        lay = [set(l) for l in c.partial_order_layers]; li = {v: i for i, l in enumerate(lay) for v in l}
        if g is not None:
            cf = {a: set(s) for a, s in g.correction_function.items()}
            bad = S.violations(og, cf, lay, k)
            assert not bad, f"the {k} flow {cf} violates {bad}: x {x} z {z} {desc(f)}"
            if k == "pauli":
                c3 = g.to_xzcorrections()
                assert norm(c3.x_corrections) == norm(x) and norm(c3.z_corrections) == norm(z), f"corrections of the {k} flow recovered from X {x} Z {z}: X {c3.x_corrections} Z {c3.z_corrections}; {desc(f)}"
        elif k == "pauli":
            # brute force: no assignment of correction sets
            adj = S.adjacency(og); ins = set(og.input_nodes); cand = [v for v in nodes if v not in ins]
            for v in og.measurements:
                fut = {u for u in nodes if li[u] < li[v]}
                if not any(set(s) & fut == x.get(v, set()) and S.odd(adj, set(s)) & fut == z.get(v, set()) and not S.propositions(og, {v: set(s)}, lay, "pauli", v)
                           for m in range(len(cand) + 1) for s in itertools.combinations(cand, m)): break
            else: raise AssertionError(f"no Pauli flow is recovered from X {x} Z {z} although there is one; {desc(f)}")

# -- deductive units ------------------------------------------------------------------------------------------------
from gv import flowsym as FS
from gv import fsets as F
z3 = boot.z3()

class Recorder:
    """Stands for the constructed object: records the arguments and the check of well-formedness."""
    def __init__(self, eng): self.eng, self.args, self.checked = eng, None, False
    def __call__(self, og, a, *rest):
        if self.args is not None: raise Unfit("two objects constructed")
        self.args = (og, a, *rest); return self
    def check_well_formed(self): self.checked = True

def fill(eng, maps, expected, names):
    """Loop contract: an iteration on node t leaves, in the k-th map, exactly the set expected[k](t), at key t (absent stands for empty)."""
    def hook(st, t):
        now = dict((id(o), v) for o, v in st)
        for o, v in st:
            if o.ver != v and not any(o is m for m in maps): raise Unfit("the loop changes another set or map")
        y = eng.label("y"); eng.cover("iteration")
        for m, want, n in zip(maps, expected, names):
            w = want(t)
            for k, _ in m.w: eng.prove(f"{n}: only the entry of the node is written", k == t)
            if m.w:
                v = m.w[-1][1]
                if not isinstance(v, (F.FSet, frozenset, set)): raise Unfit("entry")
                eng.prove(f"{n}: the entry is the set of the definition", F.conv(v).mem(y) == w(y))
            else: eng.prove(f"{n}: no entry only if the set of the definition is empty", z3.Not(w(y)))
    return hook

def corrections_unit(ob, cls, kind):
    results = []
    for order in ((0, 1), (1, 0)):
        eng = F.FEngine(ob, f"{cls.__name__}.to_xzcorrections")
        roles = [lambda seq: F.past(F.cur(), seq)] if kind == "pauli" else []
        def h():
            w = FS.World(eng); rec = Recorder(eng)
            eng.forall(w.cfdom, lambda u: z3.BoolVal(True))
            fut = F.past(eng, w.layers, name="future") if kind == "pauli" else None
            flow = F.Obj(cls, {"XZCorrections": rec}, og=w.og, correction_function=w.fmap(w.cfdom, w.cf), partial_order_layers=w.layers)
            cf = lambda t, y: z3.And(w.cfdom(t), w.cf(t, y)); late = lambda y: fut(eng.layer_index, y)
            other = lambda f: (lambda t: lambda y: z3.And(w.cfdom(t), f(t, y), y != t))
            want = {"causal": [lambda t: lambda y: cf(t, y), other(w.nb)], "gflow": [lambda t: lambda y: z3.And(cf(t, y), y != t), other(w.odd)],
                    "pauli": [lambda t: lambda y: z3.And(cf(t, y), late(y)), lambda t: lambda y: z3.And(w.cfdom(t), w.odd(t, y), late(y))]}[kind]
            def hook(st, t):
                maps = [m for m, _ in [(o, v) for o, v in st if isinstance(o, F.FMap)]]
                if len(maps) != 2: raise Unfit("two maps expected")
                eng.found = [maps[k] for k in order]
                fill(eng, eng.found, want, ["X corrections", "Z corrections"])(st, t)
            eng.iter_hook = hook
            r = flow.to_xzcorrections()
            if rec.args is None or r is not rec: raise Unfit("result")
            og, x, z, layers = (list(rec.args) + [None] * 4)[:4]
            ms = [m for m in eng.maps]
            eng.prove("the corrections of this flow are returned", og is w.og and layers is w.layers and len(ms) == 2 and x is ms[order[0]] and z is ms[order[1]])
            eng.cover("result")
        eng.explore(h, roles=roles)
        bad = sum(1 for a in eng.agg.values() if a["bad"] or a["unk"])
        results.append((bad, eng))
        if not bad: break
    min(results, key=lambda t: t[0])[1].close(["iteration", "result"])

for _c, _k in ((CausalFlow, "causal"), (GFlow, "gflow"), (PauliFlow, "pauli")):
    P.proof(f"corrections of a {_c.__name__}", [FCO + f"{_c.__name__}.to_xzcorrections"], "z3")(lambda ob, c=_c, k=_k: corrections_unit(ob, c, k))

@P.proof("gflow of corrections", [FCO + "XZCorrections.to_gflow", FCO + "XZCorrections.to_causalflow"], "z3")
def back_gflow(ob):
    xdom, xc = z3.Function("xdom", FS.Lab, F.B), z3.Function("xcorr", FS.Lab, FS.Lab, F.B)
    eng = F.FEngine(ob, "XZCorrections.to_gflow")
    def obj(w, rec): return F.Obj(XZCorrections, {"GFlow": rec, "CausalFlow": rec}, og=w.og, x_corrections=w.fmap(xdom, xc), z_corrections=None, partial_order_layers=w.layers)
    def h():
        w = FS.World(eng); rec = Recorder(eng)
        def hook(st, t):
            maps = [o for o, v in st if isinstance(o, F.FMap)]
            if len(maps) != 1: raise Unfit("one map expected")
            want = lambda t: lambda y: z3.Or(z3.And(xdom(t), xc(t, y)), z3.And(y == t, w.plane(t) != 0))
            fill(eng, maps, [want], ["correction function"])(st, t)
            eng.prove("every measured node has an entry", bool(maps[0].w)); eng.prove("only measured nodes", w.oc(t))
        eng.iter_hook = hook
        r = obj(w, rec).to_gflow()
        og, cf, layers = (list(rec.args or ()) + [None] * 3)[:3]
        eng.prove("the gflow of these corrections is returned", r is rec and og is w.og and layers is w.layers and any(cf is m for m in eng.maps))
        eng.prove("it has been checked", rec.checked); eng.cover("result")
    eng.explore(h); eng.close(["iteration", "result"])
    eng = F.FEngine(ob, "XZCorrections.to_causalflow")
    def h2():
        w = FS.World(eng); rec = Recorder(eng); o = obj(w, rec); r = o.to_causalflow()
        og, cf, layers = (list(rec.args or ()) + [None] * 3)[:3]
        eng.prove("the causal flow of these corrections is returned, checked", r is rec and og is w.og and layers is w.layers and cf is o.x_corrections and rec.checked); eng.cover("result")
    eng.explore(h2); eng.close(["result"])

class Lab:
    """An arbitrary node."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

@P.proof("reconstruction of Pauli flows: futures and driver", [FCO + "_reconstruct_pauli_correction_function"], "loop contracts: opaque nodes, arbitrary layers before; solver by its contract")
def reconstruct_unit(ob):
    import types
    from gv import loops
    from graphix.flow import core as FC_
    from graphix.flow.exceptions import FlowGenericError, FlowGenericErrorReason
    f = need(FC_, "_reconstruct_pauli_correction_function")
    if len(loops.loops_of(f)) != 2: raise Unfit("loops")
    a, b, c, d, e = (Lab(s) for s in "abcde")
    for acc in (set(), {a}, {a, b}):
        for layer in ((c,), (c, d), (c, d, e)):
            fut = {a: {"old"}} if acc else {}; acc0 = set(acc); before = {k: set(v) for k, v in fut.items()}
            r = loops.step(f, 0)(frozenset(layer), xz=None, future_of=fut, accumulated=acc0, og=None, adjacency=None, labels=None)
            ok = r["accumulated"] == acc | set(layer) and r["future_of"] == {**before, **{v: acc for v in layer}}
            ob.structural(f"a layer of {len(layer)} after {len(acc)} later nodes: their future is what is in the later layers, and they join the future of the next ones", ok)
            if ok:
                r["accumulated"].add("later"); ob.structural(f"a layer of {len(layer)} after {len(acc)} later nodes: futures are not changed by what is added afterwards", all("later" not in r["future_of"][v] for v in layer))
    for sol in (None, set(), {a}, {b, c}):
        calls = []
        def solve(xz, node, future, adj, labels): calls.append((xz, node, future, adj, labels)); return sol
        cf = {a: {b}}; fut = {c: {a}, d: set()}
        try: r = loops.step(f, 1, _solve_pauli_correction_set=solve)(c, xz="xz", future_of=fut, og=None, adjacency="adj", labels="lab", correction_function=cf); err = None
        except FlowGenericError as exc: err = exc
        ob.structural(f"a node, correction set {sol}: the solver is given its own future", calls == [("xz", c, {a}, "adj", "lab")])
        ob.structural(f"a node, correction set {sol}: " + ("no Pauli flow" if sol is None else "recorded for the node, the others kept"),
                      (err is not None and err.reason == FlowGenericErrorReason.NoPauliFlow) if sol is None else err is None and r["correction_function"] == {a: {b}, c: sol})

@P.proof("pattern of an open graph: choice of the flow", [FOG + "OpenGraph.to_pattern"], "every outcome of the callees, by their contracts")
def driver_unit(ob):
    from gv.extract import raw
    from graphix.opengraph import OpenGraphError
    f = raw(OpenGraph.to_pattern)
    class Flow:
        def __init__(self, name): self.name = name
        def to_xzcorrections(self): return Corr(self.name)
    class Corr:
        def __init__(self, name): self.name = name
        def to_pattern(self): return ("pattern of", self.name)
    for bloch, causal, pauli in itertools.product((True, False), repeat=3):
        class Bloch:
            def to_causalflow_or_none(self): return Flow("causal") if causal else None
            to_causalflow = None
        class Og:
            def downcast_bloch(self):
                if not bloch: raise TypeError("a Pauli measurement")
                return Bloch()
            def to_pauliflow_or_none(self, *, stacklevel=1): return Flow("pauli") if pauli else None
        try: r = f(Og())
        except OpenGraphError: r = "none"
        want = {("pattern of", "causal")} if bloch and causal else set()
        if pauli: want.add(("pattern of", "pauli"))
        ob.structural(f"planar {bloch}, causal flow {causal}, Pauli flow {pauli}: the pattern of a flow that exists, an error exactly when there is none", r in (want or {"none"}))


@P.proof("flows of patterns: composition", ["graphix/pattern.py:Pattern." + m for m in ("to_causalflow", "to_gflow", "to_pauliflow", "to_xzcorrections", "to_opengraph")], "terms over the contracts of the callees")
def wrappers_unit(ob):
    from gv.chains import Ch, Me
    from gv.extract import rebind
    from graphix import pattern as gpat
    opt = Ch("optimization"); me = Me(); std = opt.StandardizedPattern.from_pattern(me)
    xz = Ch(("self",)).to_xzcorrections()
    for name, want in dict(to_xzcorrections=std.to_xzcorrections(), to_opengraph=std.to_opengraph(), to_pauliflow=xz.to_pauliflow(),
                           to_causalflow=xz.downcast_bloch().to_causalflow(), to_gflow=xz.downcast_bloch().to_gflow()).items():
        me = Me(); got = rebind(getattr(gpat.Pattern, name), optimization=opt)(me)
        ob.structural(f"{name}: that of the corrections of the standard form", got == want)
        ob.structural(f"{name}: the pattern is not changed", not me.gv_set)
