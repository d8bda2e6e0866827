"""Independent semantics of circuits: one linear map (remaining qubits x inputs) per measurement outcome assignment."""
from __future__ import annotations
import math
import numpy as np
from . import boot, mats as M  # noqa: F401
from graphix.fundamentals import Axis
from graphix.parameter import Expression

EIG = {"X": np.array([[1, 1], [1, -1]]) / math.sqrt(2), "Y": np.array([[1, -1j], [1, 1j]]) / math.sqrt(2), "Z": np.eye(2)}

def _sym(angle):
    """cos(a/2), sin(a/2), e^{ia/2}, ... of an angle in units of pi, numeric or symbolic."""
    if isinstance(angle, Expression):
        e = lambda k: (angle * (1j * math.pi * k)).exp()
        return (e(.5) + e(-.5)) * .5, (e(.5) - e(-.5)) * -.5j, e
    a = angle * math.pi
    return math.cos(a / 2), math.sin(a / 2), lambda k: np.exp(1j * k * a)

def gate(ins):
    """(matrix, qubits) of an instruction; first qubit most significant."""
    k = ins.kind.name
    if k in ("H", "S", "X", "Y", "Z", "I"):
        return {"H": M.H, "S": M.S, "X": M.X, "Y": M.Y, "Z": M.Z, "I": M.I2}[k], [ins.target]
    if k == "CNOT":
        return M.CNOT, [ins.control, ins.target]
    if k == "CZ":
        return M.CZ, list(ins.targets)
    if k == "SWAP":
        return M.SWAP, list(ins.targets)
    if k == "CCX":
        return M.CCX, [*ins.controls, ins.target]
    c, s, e = _sym(ins.angle)
    dt = object if isinstance(ins.angle, Expression) else complex
    if k == "RX":
        return np.array([[c, s * -1j], [s * -1j, c]], dtype=dt), [ins.target]
    if k == "RY":
        return np.array([[c, s * -1], [s, c]], dtype=dt), [ins.target]
    if k == "RZ":
        return np.array([[e(-.5), 0], [0, e(.5)]], dtype=dt), [ins.target]
    if k == "J":
        return np.array([[M.S2, e(1) * M.S2], [M.S2, e(1) * -M.S2]], dtype=dt), [ins.target]
    if k == "RZZ":
        m = np.zeros((4, 4), dtype=dt)
        m[0, 0] = m[3, 3] = e(-.5); m[1, 1] = m[2, 2] = e(.5)
        return m, [ins.control, ins.target]
    raise ValueError(f"unknown instruction {ins}")

def run(circuit, outcomes=(), symbolic=False, width=None, instrs=None):
    """Linear map of the branch: rows = unmeasured qubits in increasing order.  `outcomes` in order of measurement."""
    from .psim import Sim
    width = circuit.width if width is None else width
    sim = Sim(list(range(width)), symbolic)
    it = iter(outcomes)
    for ins in (circuit.instruction if instrs is None else instrs):
        if ins.kind.name == "M":
            o = next(it)
            b = EIG[ins.axis.name][o]
            sim.project(ins.target, b, o)
        else:
            m, qs = gate(ins)
            sim.op(m, qs)
    return sim.out(sorted(sim.nodes))

def n_meas(circuit):
    return sum(i.kind.name == "M" for i in circuit.instruction)

def unitary(instrs, width, symbolic=False):
    return run(None, (), symbolic, width, list(instrs))
