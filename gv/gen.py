"""Generators of inputs for the bounded stand-ins.  Everything is a function of a `random.Random`."""
from __future__ import annotations
import itertools, math, random
import networkx as nx
import numpy as np
from . import boot  # noqa: F401
from graphix.clifford import Clifford
from graphix.command import C, E, M, N, S, T, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.pattern import Pattern
from graphix.states import BasicStates, PlanarState

ANGLES = [0.0, 0.5, 1.0, 1.5, 0.25, 0.75, 1.25, 1.75]

def seeds(rng, *extra):
    """Infinite stream of cases [seed, *extra values drawn by callables]."""
    while True:
        yield [rng.randrange(2 ** 48), *(e(rng) if callable(e) else e for e in extra)]

def angle(r, pauli=0.3):
    u = r.random()
    if u < pauli:
        return r.choice([0.0, 0.5, 1.0, 1.5])
    if u < pauli + 0.2:
        return r.choice(ANGLES)
    return round(r.uniform(0, 2), 4)

def measurement(r, pauli=0.35, bloch_pauli=0.15, planes=(Plane.XY, Plane.YZ, Plane.XZ)):
    if r.random() < pauli:
        return PauliMeasurement(r.choice(list(Axis)), r.choice(list(Sign)))
    return BlochMeasurement(angle(r, bloch_pauli), r.choice(list(planes)))

def bloch(r, planes=(Plane.XY, Plane.YZ, Plane.XZ), pauli=0.2):
    return BlochMeasurement(angle(r, pauli), r.choice(list(planes)))

def domain(r, avail, p=0.4, maxn=3):
    avail = sorted(avail)
    if not avail or r.random() > p:
        return set()
    return set(r.sample(avail, min(len(avail), 1 + r.randrange(maxn))))

STATES = [BasicStates.PLUS, BasicStates.MINUS, BasicStates.ZERO, BasicStates.ONE, BasicStates.PLUS_I, BasicStates.MINUS_I]

def pattern(r, n=6, n_in=None, states=True, meas=None, cliffords=0.15, corrections=0.35, signals=0.0, ticks=0.0,
            edges=0.5, domains=0.45, n_out=None, late=True, all_measured=False, dup_edges=0.1, live=6):
    """A random runnable pattern on at most n nodes (non deterministic in general: semantics is compared per branch)."""
    meas = meas or measurement
    labels = list(range(n)); 
    if r.random() < 0.6:
        labels = r.sample(range(3 * n), n)
    n_in = r.randrange(0, min(3, n) + 1) if n_in is None else n_in
    inputs = labels[:n_in]
    todo = labels[n_in:]
    active = list(inputs); measured = []
    n_out = (0 if all_measured else r.randrange(0 if n > 1 else 1, min(3, n) + 1)) if n_out is None else n_out
    p = Pattern(input_nodes=inputs)
    cmds = []
    if not late:
        r.shuffle(todo)
        for v in todo:
            cmds.append(N(v, r.choice(STATES) if states and r.random() < 0.3 else BasicStates.PLUS))
        active += todo; todo = []
    steps = 0
    while True:
        steps += 1
        if len(active) + len(todo) <= n_out and not todo and (steps > 6 * n or r.random() < 0.3):
            break
        u = r.random()
        if todo and (not active or u < 0.25) and len(active) < live:
            v = todo.pop(r.randrange(len(todo)))
            cmds.append(N(v, r.choice(STATES) if states and r.random() < 0.3 else BasicStates.PLUS))
            active.append(v)
        elif u < 0.25 + 0.35 * edges * 2 and len(active) >= 2:
            a, b = r.sample(active, 2)
            cmds.append(E((a, b)))
        elif u < 0.75 and len(active) + len(todo) > n_out and active:
            v = active.pop(r.randrange(len(active)))
            cmds.append(M(v, meas(r), domain(r, measured, domains), domain(r, measured, domains)))
            measured.append(v)
        elif active and r.random() < corrections:
            v = r.choice(active)
            cmds.append(r.choice([X, Z])(v, domain(r, measured, 0.85)))
        elif active and r.random() < cliffords:
            cmds.append(C(r.choice(active), Clifford(r.randrange(24))))
        elif measured and r.random() < signals:
            v = r.choice(measured)
            k = measured.index(v)
            cmds.append(S(v, domain(r, [m for m in measured if m != v], 0.9)))
        elif r.random() < ticks:
            cmds.append(T())
        if steps > 400:
            break
    for v in list(active):
        if len(active) + len(todo) > n_out:
            active.remove(v)
            cmds.append(M(v, meas(r), domain(r, measured, domains), domain(r, measured, domains)))
            measured.append(v)
    # some corrections at the end
    for v in active:
        for k in (X, Z):
            if r.random() < corrections:
                cmds.append(k(v, domain(r, measured, 0.85)))
        if r.random() < cliffords:
            cmds.append(C(v, Clifford(r.randrange(24))))
    p.extend(cmds)
    out = list(active)
    r.shuffle(out)
    p.reorder_output_nodes(out)
    return p

def graph(r, nodes, p=0.5, connected=False):
    g = nx.Graph()
    g.add_nodes_from(nodes)
    nodes = list(nodes)
    for a, b in itertools.combinations(nodes, 2):
        if r.random() < p:
            g.add_edge(a, b)
    if connected and nodes:
        order = nodes[:]; r.shuffle(order)
        for i in range(1, len(order)):
            if not nx.has_path(g, order[0], order[i]):
                g.add_edge(order[i], r.choice(order[:i]))
    return g

def labels(r, n):
    return list(range(n)) if r.random() < 0.5 else r.sample(range(4 * n + 1), n)

def opengraph(r, n=5, meas=None, n_in=None, n_out=None, p=None, connected=False, ioverlap=True):
    meas = meas or measurement
    ls = labels(r, n)
    g = graph(r, ls, r.choice([0.3, 0.5, 0.7]) if p is None else p, connected)
    n_out = r.randrange(1, max(2, (n + 1) // 2 + 1)) if n_out is None else n_out
    n_in = r.randrange(0, n_out + 1) if n_in is None else n_in
    outs = r.sample(ls, min(n_out, n))
    pool = ls if ioverlap else [x for x in ls if x not in outs]
    ins = r.sample(pool, min(n_in, len(pool)))
    ms = {v: meas(r) for v in ls if v not in outs}
    return OpenGraph(g, ins, outs, ms)

def flow_graph(r, width=2, depth=3, extra=0.4, meas=None, planes=False):
    """An open graph with causal flow by construction: `width` wires of random lengths with extra edges allowed by a random
    global time order."""
    meas = meas or (lambda r: bloch(r, (Plane.XY,)))
    wires = []; node = 0
    lens = [r.randrange(1, depth + 2) for _ in range(width)]
    total = sum(lens)
    ls = labels(r, total)
    it = iter(ls)
    wires = [[next(it) for _ in range(k)] for k in lens]
    g = nx.Graph(); g.add_nodes_from(ls)
    f = {}
    for w in wires:
        for a, b in zip(w, w[1:]):
            g.add_edge(a, b); f[a] = b
    # random interleaving = time order
    pos = [0] * width; order = []
    while any(pos[i] < len(wires[i]) for i in range(width)):
        i = r.choice([i for i in range(width) if pos[i] < len(wires[i])])
        order.append(wires[i][pos[i]]); pos[i] += 1
    t = {v: i for i, v in enumerate(order)}
    def ok(a, b):
        # edge a-b: for u with f(u)=a, u != b: u < b in time; same for b
        for x, y in ((a, b), (b, a)):
            for u in f:
                if f[u] == x and u != y and not t[u] < t[y]:
                    return False
        return True
    for a, b in itertools.combinations(ls, 2):
        if not g.has_edge(a, b) and r.random() < extra and ok(a, b):
            g.add_edge(a, b)
    ins = [w[0] for w in wires]; outs = [w[-1] for w in wires]
    if r.random() < 0.3:
        r.shuffle(outs)
    ms = {v: meas(r) for v in ls if v not in outs}
    return OpenGraph(g, ins, outs, ms)

# -- circuits ---------------------------------------------------------------------------------------------------------
GATES1 = ["H", "S", "X", "Y", "Z", "I"]
ROT = ["RX", "RY", "RZ", "J"]
GATES2 = ["CNOT", "CZ", "SWAP"]

def circuit(r, width=2, depth=5, kinds=None, measure=0.0, angle_fn=None, ccx=0.1, permute=False):
    """Random circuit.  `measure`: probability of measuring a live qubit at each step."""
    from graphix import instruction as I
    from graphix.transpiler import Circuit
    angle_fn = angle_fn or (lambda r: round(r.uniform(-3, 3), 3) if r.random() < 0.6 else r.choice([0, 0.5, 1, 1.5, -0.5, 0.25]))
    kinds = kinds or [*GATES1, *ROT, *GATES2, "RZZ", "CCX"]
    live = list(range(width))
    ins = []
    for _ in range(depth):
        if not live:
            break
        if measure and r.random() < measure:
            q = live.pop(r.randrange(len(live)))
            ins.append(I.M(q, r.choice(list(Axis))))
            continue
        k = r.choice(kinds)
        if k == "CCX":
            if len(live) < 3 or r.random() > ccx * 5:
                continue
            a, b, c = r.sample(live, 3)
            ins.append(I.CCX(target=a, controls=(b, c)))
        elif k in ("CNOT", "RZZ"):
            if len(live) < 2: continue
            a, b = r.sample(live, 2)
            ins.append(I.CNOT(target=a, control=b) if k == "CNOT" else I.RZZ(target=a, control=b, angle=angle_fn(r)))
        elif k in ("CZ", "SWAP"):
            if len(live) < 2: continue
            a, b = r.sample(live, 2)
            ins.append(getattr(I, k)(targets=(a, b)))
        elif k in ROT:
            ins.append(getattr(I, k)(r.choice(live), angle_fn(r)))
        else:
            ins.append(getattr(I, k)(r.choice(live)))
    return Circuit(width, ins)
