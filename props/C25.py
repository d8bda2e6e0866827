from __future__ import annotations
import itertools, random, types
import numpy as np
import networkx as nx
from gv import boot, gen as G, loops, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.extract import rebind
from graphix import graphsim as gs
from graphix.clifford import Clifford
from graphix.graphsim import GraphState

F = "graphix/graphsim.py:GraphState."
P = Prop("C25", "proof",
    "A decorated graph state is the function i^q(x) of a quadratic form q mod 4 (edges 2xy, loops x, signs 2x), followed by H on hollow nodes. Operations are proved for every graph: each loop over neighbours only "
    "decorates the neighbour it visits (inductive step of the extracted loops), so both sides of each identity are quadratic forms mod 4 and agree as soon as they agree on inputs with two non-zero coordinates "
    "besides the nodes operated on; the real code is executed on all these cases. Long sequences on larger graphs are bounded.",
    ["hollow nodes other than the ones operated on commute with everything", "a quadratic form mod 4 with even cross terms is determined by its values on inputs with at most two non-zero coordinates"],
    ["networkx: neighbours, subgraph, complement, remove_node"])

S2 = np.array([[1, 1], [1, -1]]) / np.sqrt(2)

def state(g, order):
    """Denotation of a decorated graph (independent of to_statevector)."""
    n = len(order); pos = {v: i for i, v in enumerate(order)}; v = np.ones((2,) * n, dtype=complex) / 2 ** (n / 2)
    for a, b in g.edges:
        ix = [slice(None)] * n; ix[pos[a]] = ix[pos[b]] = 1; v[tuple(ix)] *= -1
    for a in order:
        d = g.nodes[a]; ix = [slice(None)] * n; ix[pos[a]] = 1
        if d["sign"]: v[tuple(ix)] *= -1
        if d["loop"]: v[tuple(ix)] *= 1j
    for a in order:
        if g.nodes[a]["hollow"]: v = np.moveaxis(np.tensordot(S2, v, axes=(1, pos[a])), 0, pos[a])
    return v

def apply(v, m, i): return np.moveaxis(np.tensordot(m, v, axes=(1, i)), 0, i)
def same(a, b): return a.shape == b.shape and abs(abs(np.vdot(a, b)) - 1) < 1e-9

def make(nodes, edges, attrs):
    g = GraphState(nodes, edges)
    for v, (h, l, s) in attrs.items(): d = g.nodes[v]; d["hollow"], d["loop"], d["sign"] = bool(h), bool(l), bool(s)
    return g

def clean(g): return all(set(g.nodes[v]) == {"sign", "loop", "hollow"} for v in g.nodes) and not any(a == b for a, b in g.edges)

SZ = {"h": M.H, "s": M.S, "z": M.Z}
EIG = {"measure_x": np.array([[1, 1], [1, -1]]) / np.sqrt(2), "measure_y": np.array([[1, -1j], [1, 1j]]) / np.sqrt(2), "measure_z": np.eye(2)}

def run_op(g, order, op, *a):
    """None or what is wrong with one operation of the real code on g."""
    v0 = state(g, order); before = dict(g.nodes(data=True)) and {v: dict(g.nodes[v]) for v in g.nodes}
    if op in SZ:
        getattr(g, op)(a[0]); want = apply(v0, SZ[op], order.index(a[0]))
    elif op == "vop":
        g.apply_vops({a[0]: a[1]}); want = apply(v0, psim.clifford_matrix(a[1]), order.index(a[0]))
    elif op == "equivalent_graph_e1":
        ok = before[a[0]]["loop"]
        try: g.equivalent_graph_e1(a[0])
        except ValueError: return None if not ok and same(state(g, order), v0) else "refused"
        if not ok: return "accepted a node without loop"
        want = v0
        if g.nodes[a[0]]["hollow"] == before[a[0]]["hollow"]: return "the fill is not flipped"
    elif op == "equivalent_graph_e2":
        ok = g.has_edge(*a) and not before[a[0]]["loop"] and not before[a[1]]["loop"]
        try: g.equivalent_graph_e2(*a)
        except ValueError: return None if not ok and same(state(g, order), v0) else "refused"
        if not ok: return "accepted unconnected nodes or nodes with loops"
        want = v0
    elif op == "equivalent_fill_node":
        iso = not list(g.neighbors(a[0])); hollow = before[a[0]]["hollow"]
        r = g.equivalent_fill_node(a[0]); want = v0
        stuck = iso and hollow and not before[a[0]]["loop"]
        if g.nodes[a[0]]["hollow"] != stuck: return "the node is not filled"
        if stuck and r != 1: return f"returned {r} for a hollow isolated node"
        if not stuck and r == 1: return "returned 1 for a filled node"
        if iso and not hollow and r != 2: return f"returned {r} for a filled isolated node"
        if not iso and r != 0: return f"returned {r} for a node with neighbours"
    else:
        i = order.index(a[0]); br = [np.tensordot(EIG[op][o].conj() if op != "measure_y" else EIG[op][o], v0, axes=(0, i)) for o in (0, 1)]
        pr = [float(np.vdot(b, b).real) for b in br]
        r = getattr(g, op)(*a)
        if int(r) not in (0, 1): return f"result {r!r}"
        r = int(r); c = a[1] if len(a) > 1 else 0
        if pr[c] > 1e-9 and r != c: return f"outcome {r} instead of the possible {c}"
        if pr[r] < 1e-9: return f"impossible outcome {r}"
        order = [o for o in order if o != a[0]]
        if list(g.nodes) != order and set(g.nodes) != set(order): return "the measured node is not removed"
        want = br[r] / np.sqrt(pr[r])
    if set(g.nodes) != set(order) or not clean(g): return "nodes or attributes"
    if not same(state(g, order), want): return "the state is wrong"
    return None

def attrs3(full): return itertools.product((0, 1), repeat=3) if full else ((0, l, s) for l in (0, 1) for s in (0, 1))

@P.proof("operations on a node", [F + f for f in ("h", "s", "z", "flip_fill", "flip_sign", "advance", "local_complement", "apply_vops", "equivalent_graph_e1", "equivalent_fill_node", "measure_x", "measure_y", "measure_z")],
         "every decorated graph on the node and two others; quadratic forms mod 4")
def node_ops(ob):
    nodes = [0, 1, 2]; es = [(0, 1), (0, 2), (1, 2)]
    ops = [(o, 0) for o in SZ] + [("vop", 0, c) for c in Clifford] + [("equivalent_graph_e1", 0), ("equivalent_fill_node", 0)] + [(m, 0, c) for m in EIG for c in (0, 1)] + [(m, 0) for m in EIG]
    for mask in itertools.product((0, 1), repeat=3):
        edges = [e for e, b in zip(es, mask) if b]
        for a0, a1, a2 in itertools.product(attrs3(True), attrs3(True), attrs3(False)):
            for op in ops:
                g = make(nodes, edges, {0: a0, 1: a1, 2: a2})
                r = run_op(g, nodes, *op)
                ob.check(f"{op[0]}{op[1:]} on edges {edges} hollow/loop/sign {a0}{a1}{a2}: {r or 'state and result'}", r is None)

@P.proof("pivoting", [F + "equivalent_graph_e2"], "every decorated graph on the two nodes and two others; quadratic forms mod 4")
def pivot(ob):
    nodes = [0, 1, 2, 3]; es = list(itertools.combinations(nodes, 2))
    for mask in itertools.product((0, 1), repeat=6):
        edges = [e for e, b in zip(es, mask) if b]
        for a0, a1 in itertools.product(attrs3(True), repeat=2):
            if not mask[0] or a0[1] or a1[1]:
                if mask[1:] != (1, 0, 0, 1, 0): continue
            for a2, a3 in ([((0, 0, 0), (0, 1, 1))] if not mask[0] else itertools.product(attrs3(False), repeat=2)):
                for pair in ((0, 1), (1, 0)):
                    g = make(nodes, edges, {0: a0, 1: a1, 2: a2, 3: a3}); r = run_op(g, nodes, "equivalent_graph_e2", *pair)
                    ob.check(f"e2{pair} on edges {edges} hollow/loop/sign {a0}{a1}{a2}{a3}: {r or 'same state'}", r is None)

class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n

class RecG:
    """Records the decorations applied; anything else is outside the contract."""
    def __init__(self): self.log = []
    def __getattr__(self, a):
        if a in ("advance", "flip_sign", "flip_fill"): return lambda n: self.log.append((a, n))
        raise Unfit(f"a neighbour loop uses {a}")

@P.proof("neighbour loops", [F + f + " (loops)" for f in ("s", "z", "equivalent_graph_e1", "equivalent_graph_e2", "measure_z")], "inductive step of the extracted loops")
def neigh(ob):
    for nm in ("s", "z", "equivalent_graph_e1", "equivalent_graph_e2", "measure_z"):
        f = getattr(GraphState, nm)
        for k in range(len(loops.loops_of(f))):
            i, v, u = Tok("i"), Tok("v"), Tok("u"); g = RecG()
            d = loops.step(f, k)(i, self=g, node=v, node1=v, node2=u, choice=1, sg1=Tok("sg1"), sg2=Tok("sg2"))
            ob.structural(f"{nm} loop {k}: decorates the neighbour it visits", d["__exit__"] == "next" and len(g.log) == 1 and g.log[0][1] is i and g.log[0][0] in ("advance", "flip_sign"))
    # local complementation toggles exactly the pairs of neighbours, for any graph: complement of the subgraph of the neighbours
    for n in range(5):
        for mask in itertools.product((0, 1), repeat=n * (n - 1) // 2):
            es = [e for e, b in zip(itertools.combinations(range(n), 2), mask) if b]
            for v in range(n):
                g = GraphState(range(n), es); nb = set(g.neighbors(v)); old = {frozenset(e) for e in g.edges}; g.local_complement(v)
                want = old ^ {frozenset(p) for p in itertools.combinations(nb, 2)}
                ob.check(f"local complement at {v} of {es}", {frozenset(e) for e in g.edges} == want)

@P.proof("denotation", [F + "to_statevector", F + "extract_vops", F + "__init__", F + "add_nodes_from", F + "add_node"], "every decorated graph on <= 3 nodes")
def denote(ob):
    for n in range(4):
        for order in itertools.permutations(range(n)):
            for mask in itertools.product((0, 1), repeat=n * (n - 1) // 2):
                es = [e for e, b in zip(itertools.combinations(range(n), 2), mask) if b]
                for at in itertools.product(itertools.product((0, 1), repeat=3), repeat=n) if n < 3 or order == (0, 1, 2) else [((1, 1, 0), (0, 1, 1), (1, 0, 1)), ((1, 0, 0), (0, 0, 1), (0, 1, 0))]:
                    g = make(order, es, dict(zip(order, at)))
                    sv = np.asarray(g.to_statevector().psi).reshape((2,) * n)
                    ob.check(f"statevector of {order} {es} {at}", np.allclose(sv, state(g, list(order))))
                    vo = g.extract_vops(); h = GraphState(order, es, vo)
                    ob.check(f"local Cliffords of {order} {es} {at}: applied to the graph they give it back", set(vo) == set(order) and all(dict(h.nodes[v]) == dict(g.nodes[v]) for v in order) and {frozenset(e) for e in h.edges} == {frozenset(e) for e in es})
    g = GraphState(); g.add_node(3); g.add_nodes_from([4, (5, {"sign": True, "loop": False, "hollow": True})])
    ob.check("new nodes are undecorated unless decorations are given", dict(g.nodes[3]) == dict(g.nodes[4]) == {"sign": False, "loop": False, "hollow": False} and dict(g.nodes[5]) == {"sign": True, "loop": False, "hollow": True})
    for m in EIG:
        for c in (2, -1):
            try: getattr(GraphState([0, 1], [(0, 1)]), m)(0, c); ok = False
            except ValueError: ok = True
            ob.check(f"{m} refuses choice {c}", ok)

def bcases(rng, tier): yield from G.seeds(rng, lambda r: r.randrange(1, 8), lambda r: r.randrange(1, 12))

@P.bounded("sequences of operations", [F + f for f in ("s", "z", "h", "apply_vops", "equivalent_graph_e1", "equivalent_graph_e2", "equivalent_fill_node", "measure_x", "measure_y", "measure_z", "to_statevector", "extract_vops")], bcases,
           "random decorated graphs on <= 7 nodes with arbitrary labels, <= 11 operations", quick=10, thorough=120)
def seqs(case):
    seed, n, k = case; r = random.Random(seed)
    ls = G.labels(r, n); es = [e for e in itertools.combinations(ls, 2) if r.random() < .5]
    g = GraphState(ls, es, {v: Clifford(r.randrange(24)) for v in ls if r.random() < .6} if r.random() < .7 else None)
    log = []
    for _ in range(k):
        order = list(g.nodes)
        if not order: break
        v = r.choice(order); op = r.choice(["h", "s", "z", "vop", "vop", "equivalent_graph_e1", "equivalent_graph_e2", "equivalent_fill_node", "measure_x", "measure_y", "measure_z"])
        a = (v,)
        if op == "vop": a = (v, Clifford(r.randrange(24)))
        elif op == "equivalent_graph_e2":
            nb = list(g.neighbors(v)); a = (v, r.choice(nb if nb and r.random() < .9 else order))
            if a[0] == a[1]: continue
        elif op.startswith("measure") and r.random() < .8: a = (v, r.randrange(2))
        log.append((op, *map(str, a))); snap = ({u: dict(g.nodes[u]) for u in g.nodes}, list(g.edges))
        m = run_op(g, order, op, *a)
        assert m is None, f"{m}: {log[-1]} on {snap}"
        assert np.allclose(np.asarray(g.to_statevector().psi).reshape((2,) * len(g.nodes)), state(g, list(g.nodes))), f"statevector of {snap}"
        iso = {u for u in g.nodes if not list(g.neighbors(u))}
        assert set(g.isolated_nodes()) == iso, "isolated nodes"
