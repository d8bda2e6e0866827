from __future__ import annotations
import itertools, random, types
import numpy as np
import networkx as nx
from gv import boot, gen as G, loops, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.exact import Choices
from gv.extract import rebind
from graphix import command as cm, optimization, pattern as pt, space_minimization as sm
from graphix.clifford import Clifford
from graphix.command import CommandKind as K
from graphix.optimization import StandardizedPattern
from graphix.pattern import Pattern
from graphix.space_minimization import SpaceMinimizationHeuristicResult as HR, SpaceMinimizationHeuristics as SH

Sf, Pf = "graphix/space_minimization.py:", "graphix/pattern.py:"
P = Prop("C27", "proof",
    "Emission and prediction are proved by a coupled invariant: one iteration of each real loop, from an arbitrary set of initialised and done nodes and an arbitrary neighbourhood, activates the same nodes, and the "
    "commands emitted give exactly the predicted maximum. The driver is executed on opaque patterns with arbitrary spaces. The greedy step is executed on arbitrary dependencies. Whole patterns are bounded; "
    "that causal-flow orders are optimal is bounded (compared with every heuristic and with all orders of small patterns).",
    ["neighbourhoods of up to 4 nodes in the inductive steps (each neighbour is processed by the same code)", "N and E commute with commands on other nodes (C05)", "standardization keeps the action (C05)"], ["networkx graphs"])

class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __lt__ = __int__ = __index__ = __bool__ = __add__ = _no

class Target:
    def __init__(self): self.seq = []; self.order = None
    def add(self, c): self.seq.append(c)
    def extend(self, *cs):
        for c in cs: self.seq.extend([c] if hasattr(c, "kind") else list(c))
    def reorder_output_nodes(self, o): self.order = list(o)

def situations(kmax=3):
    """(node, neighbours, initialised, done): done <= initialised; the node itself is not done."""
    for k in range(kmax + 1):
        node = Tok("v"); nb = [Tok(f"u{i}") for i in range(k)]
        for ni in (0, 1):
            for st in itertools.product((0, 1, 2), repeat=k):  # 0 new, 1 initialised, 2 done
                init = {n for n, s in zip(nb, st) if s} | ({node} if ni else set()) | {Tok("other")}
                yield node, nb, init, {n for n, s in zip(nb, st) if s == 2}, f"node {'known' if ni else 'new'}, neighbours {st}"

def graph(node, nb):
    def neighbors(n):
        if n is not node: raise Unfit("another node's neighbours")
        return iter(nb)
    return types.SimpleNamespace(neighbors=neighbors)

@P.proof("emission and prediction", [Sf + f for f in ("standardized_to_space_optimal_pattern (loops)", "standardized_pattern_max_space (loops)", "pattern_max_space (loop)")] + [Pf + "Pattern.space_list (loop)", Pf + "Pattern.max_space"], "coupled inductive steps of the extracted loops")
def emission(ob):
    emit, pred = sm.standardized_to_space_optimal_pattern, sm.standardized_pattern_max_space
    if len(loops.loops_of(emit)) != 2 or len(loops.loops_of(pred)) != 2: raise Unfit("loops")
    count = loops.step(sm.pattern_max_space, 0)
    def replay(cmds, na, mx):
        for c in cmds:
            d = count(c, num_active=na, max_active=mx); na, mx = d["num_active"], d["max_active"]
        return na, mx
    for which in (0, 1):
        e, p = loops.step(emit, which), loops.step(pred, which)
        for node, nb, init, done, tag in situations():
            for z, x, c in itertools.product((0, 1), repeat=3) if which else [(0, 0, 0)]:
                t = Target(); others = [Tok("w")]; dm = Tok("m")
                n_dict = {v: cm.N(v) for v in [node, *nb, *others]}
                zd, xd = {Tok("a")}, {Tok("b")}; gate = Clifford.H
                pat = types.SimpleNamespace(z_dict={node: zd} if z else {}, x_dict={node: xd} if x else {}, c_dict={node: gate} if c else {})
                m = cm.M(node); item = node if which else m
                st = dict(target=t, initialized=set(init), done=set(done), n_dict=n_dict, graph=graph(node, nb), pattern=pat)
                d = e(item, **st)
                if d["__exit__"] != "next": raise Unfit("exit")
                new = [v for v in [node, *nb] if v not in init]
                ns = [s for s in t.seq if s.kind == K.N]; es = [s for s in t.seq if s.kind == K.E]
                tg = f"{'output' if which else 'measurement'}, {tag}" + (f", corrections {z}{x}{c}" if which else "")
                ob.structural(f"{tg}: exactly the new nodes are prepared, with their own commands", len(ns) == len(new) and {id(n) for n in ns} == {id(n_dict[v]) for v in new})
                ob.structural(f"{tg}: exactly the edges to nodes that are not done are emitted", sorted(id(a) for s in es for a in s.nodes if a is not node) == sorted(id(v) for v in nb if v not in done) and all(node in s.nodes for s in es))
                rest = [s for s in t.seq if s.kind not in (K.N, K.E)]
                if which == 0: ob.structural(f"{tg}: then the measurement", rest == [m] and t.seq[-1] is m)
                else:
                    kinds = [s.kind for s in rest]
                    ok = set(kinds) == {k for k, b in ((K.Z, z), (K.X, x), (K.C, c)) if b} and len(kinds) == z + x + c and all(s.node is node for s in rest) and (not c or kinds[-1] == K.C) and all(s.domain == (zd if s.kind == K.Z else xd) for s in rest if s.kind != K.C) and all(s.clifford == gate for s in rest if s.kind == K.C)
                    ob.structural(f"{tg}: then its corrections and its Clifford, after its edges", ok and (not rest or t.seq[-len(rest):] == rest))
                pos = {s.node: i for i, s in enumerate(t.seq) if s.kind == K.N}
                ob.structural(f"{tg}: nodes are prepared before they are used", all(pos[a] < i for i, s in enumerate(t.seq) if s.kind in (K.E, K.M) for a in (s.nodes if s.kind == K.E else [s.node]) if a in pos))
                ob.structural(f"{tg}: bookkeeping", d["initialized"] == init | {node, *nb} and d["done"] == done | {node})
                for slack in range(0, len(new) + 2):
                    na = 5; d2 = p(item, initialized=set(init), graph=graph(node, nb), num_active=na, max_active=na + slack, pattern=pat)
                    a, b = replay(t.seq, na, na + slack)
                    ob.structural(f"{tg}, slack {slack}: predicted counts are those of the emitted commands", d2["initialized"] == d["initialized"] and (d2["num_active"], d2["max_active"]) == (a, b))
    # the counters of an actual pattern: N adds one, M removes one, others nothing; the maximum is kept
    v = Tok("v"); cmds = [cm.N(v), cm.M(v), cm.E((v, Tok("w"))), cm.X(v, set()), cm.Z(v, set()), cm.C(v, Clifford.H), cm.S(v, set()), cm.T()]
    sl = loops.step(Pattern.space_list, 0)
    for c in cmds:
        for slack in (0, 1, 3):
            a, b = replay([c], 4, 4 + slack); w = 4 + (c.kind == K.N) - (c.kind == K.M)
            ob.structural(f"space after {c.kind.name}, slack {slack}", (a, b) == (w, max(4 + slack, w)))
        d = sl(c, nodes=4, n_list=["old"])
        ob.structural(f"space list after {c.kind.name}", d["nodes"] == 4 + (c.kind == K.N) - (c.kind == K.M) and d["n_list"] == (["old", d["nodes"]] if c.kind in (K.N, K.M) else ["old"]))

@P.proof("driver", [Sf + "minimize_space", Pf + "Pattern.minimize_space", "graphix/optimization.py:StandardizedPattern.minimize_space"], "opaque patterns, all heuristic results and relative spaces")
def driver(ob):
    class Sp:
        def __init__(self, order): self.order = order
    nodes = [Tok("a"), Tok("b")]; ms = [types.SimpleNamespace(node=n) for n in nodes]
    orders = list(itertools.permutations(nodes))
    opts = [("none",), *[(o, k, s) for o in (0, 1) for k in (False, True) for s in (0, 1, 2)]]
    for n in range(0, 4):
        for hs in itertools.product(opts if n < 3 else [("none",), (0, False, 1), (1, False, 0), (1, False, 1), (0, False, 2), (1, True, 2)], repeat=n):
            src = types.SimpleNamespace(m_list=tuple(ms)); space = {}; seen = []
            def repl(p, m_list):
                if p is not src: raise Unfit("replace")
                i = cur[0]; t = types.SimpleNamespace(m_list=m_list, idx=i, max_space=lambda: hs[i][2]); seen.append(t); return t
            cur = [0]
            def mk(i, h):
                def f(p):
                    if p is not src: raise Unfit("heuristic on another pattern")
                    cur[0] = i
                    return None if h[0] == "none" else HR(tuple(orders[h[0]]), h[1])
                return f
            f = rebind(sm.minimize_space, dataclasses=types.SimpleNamespace(replace=repl))
            hl = tuple(mk(i, h) for i, h in enumerate(hs)); r = f(src, hl) if n else f(src, ())
            live = []
            for i, h in enumerate(hs):
                if h[0] == "none": continue
                live.append(i)
                if h[1]: break
            tag = f"heuristics {hs}"
            if not live: ob.structural(f"{tag}: the pattern itself", r is src); continue
            if hs[live[-1]][1]: ok = r.idx == live[-1]
            else: ok = hs[r.idx][2] == min(hs[i][2] for i in live) and r.idx in live
            ob.structural(f"{tag}: the known optimum or the least space among the heuristics, with the measurements in its order", ok and [m.node for m in r.m_list] == list(orders[hs[r.idx][0]]) and all(any(m is x for x in ms) for m in r.m_list))
    used = []
    f = rebind(sm.minimize_space, DEFAULT_HEURISTICS=(lambda p: used.append(p),)); src = types.SimpleNamespace(m_list=()); f(src); ob.structural("default heuristics", used == [src])
    ob.structural("default list", set(sm.DEFAULT_HEURISTICS) == {SH.causal_flow, SH.greedy_degree, SH.order_unchanged})
    m2 = types.SimpleNamespace(m_list=tuple(ms)); r = SH.order_unchanged(m2); ob.structural("unchanged order", list(r.new_order) == nodes and not r.known_optimal)

@P.proof("greedy order", [Sf + "SpaceMinimizationHeuristics.greedy_degree (loop)", Sf + "_extract_dependency", Sf + "_update_dependency"], "inductive step of the extracted loop; opaque nodes")
def greedy(ob):
    for k in range(1, 4):
        nodes = [Tok(f"v{i}") for i in range(k)]; out = Tok("o")
        for deps in itertools.product(*[[set(s) for n in range(k) for s in itertools.combinations([m for m in nodes if m is not v], n)] for v in nodes]):
            free = [v for v, d in zip(nodes, deps) if not d]
            if not free: continue
            for perm in itertools.permutations(range(k)):
                deg = dict(zip(nodes, perm)); removed = []
                g = types.SimpleNamespace(degree=lambda v: deg[v], remove_nodes_from=lambda s: removed.extend(s), remove_node=removed.append)
                dep = {v: set(d) for v, d in zip(nodes, deps)}; dep[out] = set(nodes); done = [Tok("m0")]
                d = loops.step(SH.greedy_degree, 0)(None, not_measured=set(nodes), dependency=dep, meas_order=list(done), graph=g)
                pick = d["meas_order"][-1]
                ob.structural(f"{k} nodes, dependencies {deps}, degrees {perm}: a node without pending dependency is measured next, once", d["__exit__"] == "next" and pick in free and d["meas_order"] == [*done, pick] and d["not_measured"] == set(nodes) - {pick}
                         and removed == [pick] and all(dep[v] == set(e) - {pick} for v, e in zip(nodes, deps)) and dep[out] == set(nodes) - {pick})
    ins, ns = [Tok("i")], [types.SimpleNamespace(node=Tok(f"n{j}")) for j in range(3)]; a, b, c, e = (Tok(x) for x in "abce")
    mk = lambda v, s, t: types.SimpleNamespace(node=v, s_domain=set(s), t_domain=set(t))
    pat = types.SimpleNamespace(input_nodes=ins, n_list=ns, m_list=[mk(ins[0], [], []), mk(ns[0].node, [a], [a, b]), mk(ns[1].node, [], [c])], z_dict={ns[2].node: frozenset([a, e])}, x_dict={ns[2].node: frozenset([b])})
    d = sm._extract_dependency(pat) if hasattr(sm, "_extract_dependency") else None
    if d is None: raise Unfit("_extract_dependency")
    ob.structural("dependencies are the union of the domains", d == {ins[0]: set(), ns[0].node: {a, b}, ns[1].node: {c}, ns[2].node: {a, b, e}})
    ob.structural("domains are not modified", pat.m_list[1].s_domain == {a} and pat.m_list[1].t_domain == {a, b} and pat.z_dict[ns[2].node] == {a, e})

@P.proof("heuristics and frames of the loops", [Sf + "SpaceMinimizationHeuristics." + m for m in ("causal_flow", "order_unchanged", "greedy_degree")] + [Sf + "standardized_to_space_optimal_pattern", Sf + "standardized_pattern_max_space", Sf + "pattern_max_space"], "evaluation: state before the first and after the last iteration; opaque nodes, every outcome of the callees")
def frames(ob):
    from graphix.flow.exceptions import FlowError
    class Pat:
        def __init__(self, stage, err, layers): self.stage, self.err, self.layers = stage, err, layers
        def at(self, k):
            if self.stage == k: raise self.err
            return self
        def to_xzcorrections(self): return self.at(0)
        def downcast_bloch(self): return self.at(1)
        def to_causalflow(self): self.at(2); return types.SimpleNamespace(partial_order_layers=self.layers)
    toks = [[Tok(f"{'abc'[i]}{j}") for j in range(2)] for i in range(3)]; out = frozenset([Tok("o")])
    for sizes in (z for k in range(4) for z in itertools.product((1, 2), repeat=k)):
        layers = (out, *(frozenset(toks[i][:n]) for i, n in enumerate(sizes))); r = SH.causal_flow(Pat(None, None, layers)); rank = {v: i for i, l in enumerate(layers) for v in l}
        o = r.new_order
        ob.structural(f"causal flow with layers of sizes {sizes}: every measured node once, later layers first; known to be optimal", r.known_optimal is True and len(o) == sum(sizes) and set(o) == set(rank) - out and all(rank[x] >= rank[y] for x, y in zip(o, o[1:])))
    fe = [FlowError()]
    for stage, err in [(0, ValueError()), (0, fe[0]), (1, TypeError()), (2, fe[0])]:
        try: r = SH.causal_flow(Pat(stage, err, ()))
        except Exception as e: r = e
        ob.structural(f"no order without causal flow ({type(err).__name__} at {stage})", r is None)
    for k in range(4):
        ms = [types.SimpleNamespace(node=Tok(f"m{i}")) for i in range(k)]; r = SH.order_unchanged(types.SimpleNamespace(m_list=tuple(ms)))
        ob.structural(f"{k} measurements: the order is kept, not known to be optimal", list(r.new_order) == [m.node for m in ms] and r.known_optimal is False)
        outs = [Tok(f"o{i}") for i in range(k)]; g = types.SimpleNamespace(nodes=list(outs))
        r = rebind(SH.greedy_degree, _extract_dependency=lambda p: {})(types.SimpleNamespace(graph=lambda: g, output_nodes=outs))
        ob.structural(f"greedy with {k} outputs only: nothing to measure", r.new_order == () and r.known_optimal is False)
        ins = [Tok(f"i{i}") for i in range(k)]
        pat = types.SimpleNamespace(input_nodes=list(ins), output_nodes=[], m_list=[], n_list=[], graph=lambda: g)
        ob.structural(f"{k} inputs: predicted space before the first measurement", sm.standardized_pattern_max_space(pat) == k)
        class Empty:
            input_nodes = list(ins)
            def __iter__(self): return iter(())
        ob.structural(f"{k} inputs: space before the first command", sm.pattern_max_space(Empty()) == k)
        for no in range(3):
            made = []
            def mk(*a, input_nodes=None, **kw):
                if a or kw: raise Unfit("arguments of a pattern")
                t = Target(); t.inputs = list(input_nodes); made.append(t); return t
            lone = types.SimpleNamespace(neighbors=lambda v: iter(()))
            pat = types.SimpleNamespace(input_nodes=list(ins), output_nodes=ins[:no], m_list=[], n_list=[], z_dict={}, x_dict={}, c_dict={}, graph=lambda: lone)
            r = rebind(sm.standardized_to_space_optimal_pattern, graphix=types.SimpleNamespace(Pattern=mk))(pat)
            ob.structural(f"{k} inputs, {min(no, k)} outputs among them: a new pattern with these inputs and outputs, nothing is prepared", len(made) == 1 and r is made[0] and r.inputs == ins and r.order == ins[:no] and r.seq == [])

# -- bounded ----------------------------------------------------------------------------------------------------------------
HEUR = {"causal_flow": SH.causal_flow, "greedy_degree": SH.greedy_degree, "order_unchanged": SH.order_unchanged}

def rand(seed, kind, n):
    r = random.Random(seed)
    if kind == "circ": p = G.circuit(r, r.randrange(1, 5), r.randrange(0, 9), kinds=["H", "S", "RX", "RZ", "J", "CNOT", "CZ", "SWAP", "RZZ"], measure=r.choice([0, 0, .1])).transpile().pattern
    elif kind == "flow": 
        og = G.flow_graph(r, r.randrange(1, 4), 3); p = og.to_pattern()
    elif kind == "pauli":
        for _ in range(30):
            no = r.randrange(1, n // 2 + 2); og = G.opengraph(r, n, None, r.randrange(0, min(no, n) + 1), min(no, n))
            f = og.to_pauliflow_or_none()
            if f is not None: break
        else: return r, None
        p = f.to_xzcorrections().to_pattern()
    else: p = G.pattern(r, n, states=kind == "states", cliffords=.2)
    try: StandardizedPattern.from_pattern(p)
    except NotImplementedError: return r, None  # a Clifford before an entanglement (documented)
    if r.random() < .4: p.standardize()
    if r.random() < .2: p.shift_signals()
    return r, p

def my_max(p):
    a = m = len(p.input_nodes)
    for c in p:
        if c.kind == K.N: a += 1; m = max(m, a)
        elif c.kind == K.M: a -= 1
    return m

def fingerprint(cs):
    """Commands as a multiset (edges undirected, domains as sets; commands that do nothing left out)."""
    def f(c):
        return (c.kind.name, tuple(sorted(c.nodes)) if c.kind == K.E else c.node, repr(getattr(c, "state", None)), repr(getattr(c, "measurement", None)), tuple(sorted(getattr(c, "s_domain", ()))), tuple(sorted(getattr(c, "t_domain", ()))), tuple(sorted(getattr(c, "domain", ()))), repr(getattr(c, "clifford", None)))
    return sorted((f(c) for c in cs if not (c.kind in (K.X, K.Z) and not c.domain or c.kind == K.C and c.clifford == Clifford.I)), key=repr)

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice(["circ", "flow", "pauli", "rand", "rand", "states"]), lambda r: r.randrange(1, 8))

ALL = [Pf + "Pattern.minimize_space", Sf + "minimize_space", Sf + "standardized_to_space_optimal_pattern", Sf + "standardized_pattern_max_space", Sf + "pattern_max_space", *[Sf + f"SpaceMinimizationHeuristics.{h}" for h in HEUR]]
@P.bounded("minimised patterns", ALL, cases, "patterns of circuits, of flows and random ones (also without flow, with other initial states) up to about 15 nodes; every sequence of at most 3 heuristics", quick=14, thorough=200)
def minim(case):
    seed, kind, n = case; r, p = rand(seed, kind, n)
    if p is None: return "skip"
    std = StandardizedPattern.from_pattern(p); stdp = std.to_pattern(); before = list(map(repr, p)); orig = my_max(p); p0 = p.copy(); base = fingerprint(stdp)
    names = r.choice([None, [], *[list(s) for k in (1, 2, 3) for s in itertools.permutations(HEUR, k)]])
    hs = None if names is None else [HEUR[h] for h in names]
    copy = r.random() < .5; q = p.minimize_space(hs, copy=copy)
    if copy: assert list(map(repr, p)) == before and q is not p, "the pattern was modified"
    else: assert q is p
    tag = f"heuristics {names}"
    q.check_runnability()
    assert fingerprint(q) == base, f"{tag}: the commands of the minimised pattern are not those of the standard form: {list(q)} from {before}"
    assert list(q.input_nodes) == list(std.input_nodes) and list(q.output_nodes) == list(std.output_nodes), "inputs or outputs"
    sp = my_max(q); assert q.max_space() == sp, f"{tag}: max_space {q.max_space()} instead of {sp}"
    assert sp <= my_max(stdp), f"{tag}: {sp} nodes, more than the {my_max(stdp)} of the standard form"
    for h in (HEUR if names is None else names):
        res = HEUR[h](std)
        if res is None: continue
        assert sorted(res.new_order) == sorted(m.node for m in std.m_list), f"{h}: not an order of the measured nodes"
        d = {m.node: m for m in std.m_list}
        st = StandardizedPattern(std.input_nodes, std.output_nodes, std.n_list, std.e_set, [d[v] for v in res.new_order], std.z_dict, std.x_dict, std.c_dict)
        sq = st.to_space_optimal_pattern(); sq.check_runnability()
        assert st.max_space() == my_max(sq) == sq.max_space(), f"{h}: predicted {st.max_space()}, actual {my_max(sq)}"
        assert sp <= my_max(sq), f"{tag}: {sp} nodes, {h} alone needs {my_max(sq)}"
    if names is None or "order_unchanged" in names: assert sp <= orig, f"{tag}: {sp} nodes, more than the {orig} of the pattern"
    nodes = psim.measured(q)
    if max(orig, sp) > 11: return
    for o in psim.outcomes_iter(nodes, 4, r):
        a, b = psim.branch(q, o)[0], psim.branch(p0, o)[0]
        assert M.phase_equal(a, b) or np.linalg.norm(a) + np.linalg.norm(b) < 1e-9, f"{tag}: branch {o} differs"

@P.bounded("optimal orders", [Sf + "SpaceMinimizationHeuristics.causal_flow"], lambda rng, tier: G.seeds(rng, lambda r: r.choice(["circ", "flow", "flow", "rand"]), lambda r: r.randrange(1, 6)), "patterns with at most 6 measured nodes: all measurement orders compatible with the domains", quick=4, thorough=60)
def optimal(case):
    seed, kind, n = case; r, p = rand(seed, kind, n)
    if p is None: return "skip"
    std = StandardizedPattern.from_pattern(p); res = SH.causal_flow(std)
    if res is None or len(std.m_list) > 6: return "skip"
    d = {m.node: m for m in std.m_list}; best = None
    for o in itertools.permutations(d):
        seen = set()
        for v in o:
            if not (d[v].s_domain | d[v].t_domain) <= seen: break
            seen.add(v)
        else:
            st = StandardizedPattern(std.input_nodes, std.output_nodes, std.n_list, std.e_set, [d[v] for v in o], std.z_dict, std.x_dict, std.c_dict)
            s = my_max(st.to_space_optimal_pattern()); best = s if best is None else min(best, s)
    mine = StandardizedPattern(std.input_nodes, std.output_nodes, std.n_list, std.e_set, [d[v] for v in res.new_order], std.z_dict, std.x_dict, std.c_dict)
    s = my_max(mine.to_space_optimal_pattern())
    assert not res.known_optimal or s <= best, f"the causal flow order needs {s} nodes and another one {best}: {list(p)}"
