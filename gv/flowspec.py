"""Definitions of causal flow, gflow and Pauli flow, written from the published definitions (specification side)."""
from __future__ import annotations
import itertools
from graphix.fundamentals import Axis, Plane

def odd(adj, s):
    r = set()
    for v in s: r ^= adj[v]
    return r

def adjacency(og): return {v: set(og.graph.neighbors(v)) for v in og.graph.nodes}

def label(m, pauli):
    """Plane or axis a flow of the given kind sees."""
    return m.to_plane_or_axis() if pauli else m.to_plane()

def general(og, cf, layers):
    """Set of violated general properties."""
    nodes = set(og.graph.nodes); outs = set(og.output_nodes); meas = nodes - outs
    bad = set()
    if set(cf) != meas: bad.add("IncorrectCorrectionFunctionDomain")
    if not set().union(*map(set, cf.values())) <= nodes - set(og.input_nodes): bad.add("IncorrectCorrectionFunctionImage")
    if not layers:
        if nodes: bad.add("Empty")
        return bad
    rest = layers
    if outs:
        if set(layers[0]) != outs: bad.add("FirstLayer")
        rest = layers[1:]
    flat = [v for l in rest for v in l]
    if any(not l for l in rest) or not set(flat) <= meas or len(flat) != len(set(flat)): bad.add("NthLayer")
    if set(flat) | outs != nodes: bad.add("IncorrectNodes")
    return bad

def propositions(og, cf, layers, kind, node):
    """Violated propositions at `node` (order given by the layers)."""
    adj = adjacency(og); lay = {}
    for i, l in enumerate(layers):
        for v in l: lay.setdefault(v, i)
    for v in og.output_nodes: lay.setdefault(v, -1)
    before = lambda a, b: lay.get(b, -1) < lay.get(a, 10 ** 6)       # a is measured before b
    c = set(cf[node]); bad = set()
    if kind == "causal":
        if len(c) != 1: return {"C0"}
        if label(og.measurements[node], False) != Plane.XY: bad.add("XYPlane")
        (k,) = c
        if node not in adj[k]: bad.add("C1")
        if not before(node, k): bad.add("C2")
        if any(not before(node, j) for j in adj[k] - {node}): bad.add("C3")
        return bad
    o = odd(adj, c); ms = og.measurements; outs = set(og.output_nodes)
    inc, ino = node in c, node in o
    if kind == "gflow":
        if any(j != node and not before(node, j) for j in c): bad.add("G1")
        if any(j != node and not before(node, j) for j in o): bad.add("G2")
        want = {Plane.XY: ("G3", (False, True)), Plane.XZ: ("G4", (True, True)), Plane.YZ: ("G5", (True, False))}[label(ms[node], False)]
        if (inc, ino) != want[1]: bad.add(want[0])
        return bad
    lab = {v: label(m, True) for v, m in ms.items()}
    if any(j != node and not before(node, j) and lab.get(j) not in (Axis.X, Axis.Y) for j in c): bad.add("P1")
    if any(j != node and not before(node, j) and lab.get(j) not in (Axis.Y, Axis.Z) for j in o): bad.add("P2")
    if any(j != node and not before(node, j) and lab.get(j) == Axis.Y and (j in c) != (j in o) for j in lab): bad.add("P3")
    name, ok = {Plane.XY: ("P4", not inc and ino), Plane.XZ: ("P5", inc and ino), Plane.YZ: ("P6", inc and not ino), Axis.X: ("P7", ino), Axis.Z: ("P8", inc), Axis.Y: ("P9", inc != ino)}[lab[node]]
    if not ok: bad.add(name)
    return bad

def violations(og, cf, layers, kind):
    """All (proposition, node) pairs that fail; general ones have node None."""
    bad = {(g, None) for g in general(og, cf, layers)}
    if bad or not layers: return bad
    return {(p, v) for v in cf for p in propositions(og, cf, layers, kind, v)}

def focused(og, cf, pauli=True):
    adj = adjacency(og); lab = {v: label(m, pauli) for v, m in og.measurements.items()}
    for v, c in cf.items():
        c = set(c); o = odd(adj, c)
        for w in og.measurements:
            if w == v: continue
            if w in c and lab[w] not in (Plane.XY, Axis.X, Axis.Y): return False
            if w in o and lab[w] not in (Plane.XZ, Plane.YZ, Axis.Y, Axis.Z): return False
            if lab[w] == Axis.Y and (w in c) != (w in o): return False
    return True

def admissible(og, kind, node, avail, adj, lab, inputs):
    """Is there a correction set for `node` if exactly the nodes of `avail` are later (brute force)?"""
    nodes = list(og.graph.nodes)
    cand = [v for v in nodes if v not in inputs]
    if kind == "causal":
        if lab[node] != Plane.XY: return False
        return any(node in adj[k] and k in avail and adj[k] - {node} <= avail for k in cand)
    if kind == "gflow":
        pool = [v for v in cand if v in avail or v == node]
    else:
        pool = [v for v in cand if v in avail or v == node or lab.get(v) in (Axis.X, Axis.Y)]
    want = {Plane.XY: lambda c, o: not c and o, Plane.XZ: lambda c, o: c and o, Plane.YZ: lambda c, o: c and not o,
            Axis.X: lambda c, o: o, Axis.Z: lambda c, o: c, Axis.Y: lambda c, o: c != o}[lab[node]]
    past = [v for v in nodes if v not in avail and v != node]
    for k in range(len(pool) + 1):
        for s in itertools.combinations(pool, k):
            s = set(s); o = odd(adj, s)
            if not want(node in s, node in o): continue
            if kind == "gflow":
                if any(v in o for v in past): continue
            elif any((v in o and lab[v] not in (Axis.Y, Axis.Z)) or (lab[v] == Axis.Y and (v in s) != (v in o)) for v in past): continue
            return True
    return False

def max_delayed(og, kind):
    """Greedy layers (maximally delayed): list of layers or None if there is no flow of this kind."""
    adj = adjacency(og); inputs = set(og.input_nodes); outs = set(og.output_nodes)
    lab = {v: label(m, kind == "pauli") for v, m in og.measurements.items()}
    done = set(outs); layers = [set(outs)] if outs else []
    todo = set(og.graph.nodes) - outs
    while todo:
        new = {v for v in todo if admissible(og, kind, v, done, adj, lab, inputs)}
        if not new: return None
        layers.append(new); done |= new; todo -= new
    return layers
