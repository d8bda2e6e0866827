"""Independent semantics of patterns and open graphs: one linear map (outputs x inputs) per outcome assignment.

Nothing of graphix is executed here except attribute access on commands.  Works on numeric arrays and on
object arrays of trigonometric polynomials (gv.exact), i.e. for all angles at once.
"""
from __future__ import annotations
import itertools, math
import numpy as np
from . import boot, mats as M  # noqa: F401
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.parameter import Expression

GATE = {"I": M.I2, "X": M.X, "Y": M.Y, "Z": M.Z, "S": M.S, "H": M.H, "SDG": M.SDG}

def clifford_matrix(c):
    """Matrix of a Clifford from its word in H, S, Z (the words are proved against the tables in C01)."""
    r = M.I2
    for g in c.hsz:
        r = r @ {0: M.I2, 3: M.Z, 4: M.S, 6: M.H}[g.value]
    return r

def bra(meas, outcome, symbolic=False):
    """<m_outcome| of the documented basis of a measurement (phase conventions are irrelevant)."""
    s2 = M.S2
    if isinstance(meas, PauliMeasurement):
        minus = (meas.sign is Sign.MINUS) ^ bool(outcome)
        v = {Axis.X: (s2, -s2 if minus else s2), Axis.Y: (s2, 1j * s2 if minus else -1j * s2),
             Axis.Z: (0, 1) if minus else (1, 0)}[meas.axis]
        return np.array(v, dtype=complex)
    a = meas.angle
    if isinstance(a, Expression):
        from .exact import LP
        e = lambda k: (a * (1j * math.pi * k)).exp()
        c, s = (e(.5) + e(-.5)) * .5, (e(.5) - e(-.5)) * -.5j
        if meas.plane == Plane.XY:
            return np.array([LP.of(s2), e(-1) * (s2 * (-1) ** outcome)], dtype=object)
    else:
        c, s = math.cos(a * math.pi / 2), math.sin(a * math.pi / 2)
        if meas.plane == Plane.XY:
            return np.array([s2, s2 * (-1) ** outcome * np.exp(-1j * a * math.pi)])
    # YZ: cos|0> + i sin|1> ; XZ: cos|0> + sin|1>   (bra conjugates)
    ph = -1j if meas.plane == Plane.YZ else 1
    if outcome == 0:
        v = (c, s * ph)
    else:
        v = (s * -1, c * ph)
    return np.array(v, dtype=object if isinstance(a, Expression) else complex)

class Sim:
    """State: nodes (order) and array (2,)*k + (2**n_in,)."""
    def __init__(self, inputs, symbolic=False):
        n = len(inputs)
        dt = object if symbolic else complex
        t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
        if symbolic:
            from .exact import lp_array
            t = lp_array(t)
        self.sym = symbolic
        self.nodes = list(inputs); self.t = t; self.res: dict[int, int] = {}; self.dt = dt
    def conv(self, a):
        if self.sym:
            from .exact import lp_array
            return lp_array(a)
        return np.asarray(a, dtype=complex)
    def prep(self, node, vec):
        assert node not in self.nodes and node not in self.res, f"node {node} prepared twice"
        self.t = np.multiply.outer(self.conv(vec), self.t)
        self.nodes.insert(0, node)
    def op(self, m, nodes):
        ax = [self.nodes.index(n) for n in nodes]
        k = len(ax)
        m = self.conv(m).reshape((2,) * (2 * k))
        t = np.tensordot(m, self.t, axes=(list(range(k, 2 * k)), ax))
        self.t = np.moveaxis(t, list(range(k)), ax)
    def cz(self, u, v):
        i, j = self.nodes.index(u), self.nodes.index(v)
        t = self.t.copy()
        idx = [slice(None)] * t.ndim; idx[i] = 1; idx[j] = 1
        t[tuple(idx)] = t[tuple(idx)] * -1
        self.t = t
    def project(self, node, b, outcome):
        i = self.nodes.index(node)
        self.t = np.tensordot(self.conv(b), self.t, axes=(0, i))
        self.nodes.pop(i)
        self.res[node] = outcome
    def par(self, dom):
        return sum(self.res[d] for d in dom) % 2
    def out(self, outputs):
        assert sorted(self.nodes) == sorted(outputs), f"nodes left {self.nodes}, outputs {outputs}"
        perm = [self.nodes.index(o) for o in outputs]
        t = np.transpose(self.t, [*perm, len(perm)])
        return t.reshape(2 ** len(outputs), -1)

def run_commands(sim: Sim, cmds, outcomes):
    """`outcomes`: node -> 0/1 of the physical measurement (S commands then relabel results)."""
    from graphix.command import CommandKind as K
    for c in cmds:
        k = c.kind
        if k == K.N:
            sim.prep(c.node, c.state.to_statevector_numpy())
        elif k == K.E:
            sim.cz(*c.nodes)
        elif k == K.M:
            b = bra(c.measurement, outcomes[c.node])
            # measured observable X^s Z^t M Z^t X^s: project with <m| Z^t X^s
            if sim.par(c.t_domain):
                b = b * np.array([1, -1])
            if sim.par(c.s_domain):
                b = b[::-1]
            sim.project(c.node, b, outcomes[c.node])
        elif k == K.X:
            if sim.par(c.domain):
                sim.op(M.X, [c.node])
        elif k == K.Z:
            if sim.par(c.domain):
                sim.op(M.Z, [c.node])
        elif k == K.C:
            sim.op(clifford_matrix(c.clifford), [c.node])
        elif k == K.S:
            sim.res[c.node] ^= sim.par(c.domain)
        elif k == K.T:
            pass
        else:
            raise ValueError(f"unknown command {c}")

def measured(cmds):
    from graphix.command import CommandKind as K
    return [c.node for c in cmds if c.kind == K.M]

def branch(pattern, outcomes, symbolic=False):
    """Linear map of the branch and the recorded results."""
    sim = Sim(pattern.input_nodes, symbolic)
    run_commands(sim, list(pattern), outcomes)
    return sim.out(pattern.output_nodes), sim.res

def outcomes_iter(nodes, limit=None, rng=None):
    nodes = list(nodes)
    if limit is None or 2 ** len(nodes) <= limit:
        for bits in itertools.product((0, 1), repeat=len(nodes)):
            yield dict(zip(nodes, bits))
    else:
        yield dict.fromkeys(nodes, 0)
        for _ in range(limit - 1):
            yield {n: rng.randrange(2) for n in nodes}

def opengraph_map(og, outcomes=None, symbolic=False):
    sim = Sim(og.input_nodes, symbolic)
    for n in og.graph.nodes:
        if n not in og.input_nodes:
            sim.prep(n, np.array([M.S2, M.S2]))
    for u, v in og.graph.edges:
        sim.cz(u, v)
    for n, m in og.measurements.items():
        o = (outcomes or {}).get(n, 0)
        sim.project(n, bra(m, o), o)
    return sim.out(og.output_nodes)

def same_branches(p, q, relabel=None, outcomes=None, limit=None, rng=None, up_to_scale=False):
    """None, or a message: some branch of p is not the corresponding branch of q.

    `relabel`: physical outcomes of p -> physical outcomes of q.
    """
    for o in (outcomes if outcomes is not None else outcomes_iter(measured(p), limit, rng)):
        a, ra = branch(p, o)
        o2 = relabel(o) if relabel else o
        b, rb = branch(q, o2)
        if not (M.prop_equal(a, b) if up_to_scale else M.phase_equal(a, b)):
            return f"branch {o} (-> {o2}) differs:\n{np.round(a, 3).tolist()}\nvs\n{np.round(b, 3).tolist()}"
    return None
