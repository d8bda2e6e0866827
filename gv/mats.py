"""Independent linear algebra used as specification (nothing here comes from graphix)."""
from __future__ import annotations
import itertools, math
import numpy as np

S2 = 1 / math.sqrt(2)
I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) * S2
S = np.array([[1, 0], [0, 1j]], dtype=complex)
SDG = S.conj().T
CZ = np.diag([1, 1, 1, -1]).astype(complex)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
CCX = np.eye(8, dtype=complex)[[0, 1, 2, 3, 4, 5, 7, 6]]
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
def rx(a): return np.array([[math.cos(a/2), -1j*math.sin(a/2)], [-1j*math.sin(a/2), math.cos(a/2)]])
def ry(a): return np.array([[math.cos(a/2), -math.sin(a/2)], [math.sin(a/2), math.cos(a/2)]], dtype=complex)
def rz(a): return np.diag([np.exp(-1j*a/2), np.exp(1j*a/2)])
def jg(a): return H @ np.diag([1, np.exp(1j*a)])
def rzz(a): return np.diag([np.exp(-1j*a/2), np.exp(1j*a/2), np.exp(1j*a/2), np.exp(-1j*a/2)])

def kron(*ms):
    r = np.eye(1, dtype=complex)
    for m in ms:
        r = np.kron(r, m)
    return r

def embed(op, qubits, n):
    """op acting on `qubits` (first = most significant) of n qubits; qubit 0 is the most significant."""
    k = len(qubits)
    op = np.asarray(op).reshape((2,) * (2 * k))
    res = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    res = np.tensordot(op, res, axes=(list(range(k, 2 * k)), list(qubits)))
    res = np.moveaxis(res, list(range(k)), list(qubits))
    return res.reshape(2 ** n, 2 ** n)

def phase_equal(a, b, tol=1e-7) -> bool:
    """a = e^{i phi} b (same norm)."""
    a = np.asarray(a, dtype=complex).ravel(); b = np.asarray(b, dtype=complex).ravel()
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if abs(na - nb) > tol * max(1, na, nb):
        return False
    return abs(abs(np.vdot(a, b)) - na * nb) <= tol * max(1e-3, na * nb)

def prop_equal(a, b, tol=1e-7) -> bool:
    """a = c b with c != 0 (or both zero)."""
    a = np.asarray(a, dtype=complex).ravel(); b = np.asarray(b, dtype=complex).ravel()
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < tol or nb < tol:
        return na < tol and nb < tol
    return abs(abs(np.vdot(a, b)) / (na * nb) - 1) <= tol

def clifford_words():
    """The 24 single-qubit Cliffords up to phase, as matrices, generated from H and S (specification side)."""
    seen = [I2]; frontier = [I2]
    while frontier:
        new = []
        for m in frontier:
            for g in (H, S):
                c = g @ m
                if not any(prop_equal(c, x) for x in seen):
                    seen.append(c); new.append(c)
        frontier = new
    assert len(seen) == 24
    return seen

def bloch_vec(plane: str, angle: float):
    """Documented Bloch vector of a planar measurement; angle in units of pi."""
    c, s = math.cos(angle * math.pi), math.sin(angle * math.pi)
    return {"XY": (c, s, 0.0), "YZ": (0.0, c, s), "XZ": (s, 0.0, c)}[plane] if plane != "YZ" else (0.0, s, c)

def projector(vec, outcome=0):
    sg = 1 - 2 * outcome
    return (I2 + sg * (vec[0] * X + vec[1] * Y + vec[2] * Z)) / 2

def rand_state(rng: np.random.Generator, n: int):
    v = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    return v / np.linalg.norm(v)

def rand_mat(rng: np.random.Generator, d: int):
    return rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))

def rand_unitary(rng: np.random.Generator, d: int):
    q, r = np.linalg.qr(rand_mat(rng, d))
    return q * (np.diag(r) / abs(np.diag(r)))
