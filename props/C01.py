from __future__ import annotations
import itertools, cmath, math
import numpy as np
from gv import boot, mats as M  # noqa: F401
from gv.core import Prop, need
from gv.symset import SymSet
from graphix.clifford import Clifford, Domains
from graphix.fundamentals import Axis, ComplexUnit, Sign, Plane
from graphix.pauli import Pauli

P = Prop("C01", "proof",
    "Every function on Clifford gates has a finite domain (24 gates, signed Paulis) or acts pointwise on arbitrary sets: "
    "the contracts are discharged by complete enumeration over the real functions, with domains as arbitrary (symbolic) "
    "sets. Only the recognition of perturbed matrices and of random unitaries is bounded.",
    ["comparisons of 2x2 complex matrices use a tolerance of 1e-9 (floating point treated as exact otherwise)"],
    ["matrix algebra of gv/mats.py"])

ALL = list(Clifford)
F = "graphix/clifford.py:Clifford."
OWN = M.clifford_words()
GATES = {"id": M.I2, "x": M.X, "y": M.Y, "z": M.Z, "s": M.S, "sdg": M.SDG, "h": M.H}
PM = {Axis.X: M.X, Axis.Y: M.Y, Axis.Z: M.Z}

@P.proof("matrices", [F + "matrix", "graphix/_db.py:CLIFFORD"])
def _(ob):
    ob.check("there are exactly 24 gates", len(ALL) == 24)
    ob.total("matrix is unitary", ((c.value, np.allclose(c.matrix @ c.matrix.conj().T, np.eye(2), atol=1e-9)) for c in ALL))
    ob.total("matrix is a Clifford (one of the 24 classes generated by H and S)",
             ((c.value, sum(M.prop_equal(c.matrix, o) for o in OWN) == 1) for c in ALL))
    ob.total("gates are pairwise distinct up to phase",
             (((a.value, b.value), not M.prop_equal(a.matrix, b.matrix)) for a, b in itertools.combinations(ALL, 2)))
    names = dict(I=M.I2, X=M.X, Y=M.Y, Z=M.Z, S=M.S, SDG=M.SDG, H=M.H)
    ob.total("named constants denote the standard gates", ((n, M.prop_equal(getattr(Clifford, n).matrix, m)) for n, m in names.items()))
    ob.total("I, X, Y, Z are numbered 0..3 (projectors are built from that numbering)",
             ((i, np.allclose(Clifford(i).matrix, m)) for i, m in enumerate((M.I2, M.X, M.Y, M.Z))))

@P.proof("group", [F + "__matmul__", F + "conj", F + "hsz", F + "qasm3", "graphix/_db.py:CLIFFORD_MUL", "graphix/_db.py:CLIFFORD_CONJ",
                   "graphix/_db.py:CLIFFORD_HSZ_DECOMPOSITION", "graphix/_db.py:CLIFFORD_TO_QASM3"])
def _(ob):
    ob.total("a @ b denotes the product of the unitaries",
             (((a.value, b.value), M.prop_equal((a @ b).matrix, a.matrix @ b.matrix)) for a in ALL for b in ALL))
    ob.total("conj denotes the inverse", ((a.value, M.prop_equal(a.conj.matrix, a.matrix.conj().T)) for a in ALL))
    def word(ms):
        r = M.I2
        for m in ms:
            r = r @ m
        return r
    ob.total("hsz is a word in H, S, Z (and I) whose product, left to right, is the gate",
             ((a.value, len(a.hsz) > 0 and all(g in {Clifford.H, Clifford.S, Clifford.Z, Clifford.I} for g in a.hsz)
               and M.prop_equal(word([g.matrix for g in a.hsz]), a.matrix)) for a in ALL))
    ob.total("qasm3 names, applied in order, give the gate",
             ((a.value, M.prop_equal(word([GATES[n] for n in reversed(a.qasm3)]), a.matrix)) for a in ALL))
    ob.total("repr evaluates to the gate", ((a.value, eval(repr(a), {"Clifford": Clifford}) is a) for a in ALL))

@P.proof("conjugation", [F + "measure", F + "measure_axis", "graphix/_db.py:CLIFFORD_MEASURE", "graphix/fundamentals.py:Axis.clifford"])
def _(ob):
    ob.total("measure_axis(P) = C^dagger P C",
             (((c.value, ax.name), np.allclose(c.measure_axis(ax).matrix, c.matrix.conj().T @ PM[ax] @ c.matrix)) for c in ALL for ax in Axis))
    ob.total("measure(P) = C^dagger P C for every signed Pauli",
             (((c.value, str(p)), np.allclose(c.measure(p).matrix, c.matrix.conj().T @ p.matrix @ c.matrix)) for c in ALL for p in Pauli))
    def plane(c, pl):
        ax = {c.measure_axis(a).axis for a in pl.axes}
        return set(pl.clifford(c).axes) == ax
    ob.total("axis and plane labels are mapped accordingly",
             itertools.chain((((c.value, ax.name), ax.clifford(c) == c.measure_axis(ax).axis) for c in ALL for ax in Axis),
                             (((c.value, pl.name), plane(c, pl)) for c in ALL for pl in Plane)))

@P.proof("domains", [F + "commute_domains"], backend="symbolic sets (GF(2) forms)")
def _(ob):
    def holds(c):
        s, t = SymSet({"s"}), SymSet({"t"})
        d = c.commute_domains(Domains(s, t))
        if s.f != {"s"} or t.f != {"t"}:
            return False        # arguments are not modified
        for vs, vt in itertools.product((0, 1), repeat=2):
            val = lambda form: sum({"s": vs, "t": vt}[x] for x in form.f) % 2
            xs, xt = val(d.s_domain), val(d.t_domain)
            p = np.linalg.matrix_power
            lhs = p(M.X, vs) @ p(M.Z, vt) @ c.matrix
            rhs = c.matrix @ p(M.X, xs) @ p(M.Z, xt)
            if not M.prop_equal(lhs, rhs):
                return False
        return True
    ob.total("X^s Z^t C = C X^s' Z^t' for all sets s, t; arguments unchanged", ((c.value, holds(c)) for c in ALL))

@P.proof("recognition", [F + "try_from_matrix"])
def _(ob):
    ph = [cmath.exp(1j * math.pi * k / 12) * r for k in range(24) for r in (1, 0.3, 2.5)]
    ob.total("every scalar multiple (sampled scalars) of every gate is recognised",
             (((c.value, str(z)), Clifford.try_from_matrix(z * c.matrix) is c) for c in ALL for z in ph))
    ob.total("products with own 24 matrices are recognised as the right class",
             ((i, (lambda r: r is not None and M.prop_equal(r.matrix, o))(Clifford.try_from_matrix(o))) for i, o in enumerate(OWN)))
    ob.total("wrong shapes are not recognised", ((s, Clifford.try_from_matrix(np.ones(s)) is None) for s in ((1, 2), (3, 3), (4, 4), (2, 1))))

@P.proof("opengraph", [F + "to_opengraph", "graphix/_db.py:CLIFFORD_PAULI_DECOMPOSITION"])
def _(ob):
    from gv import psim
    def holds(c):
        og = c.to_opengraph()
        m = psim.opengraph_map(og)
        return M.prop_equal(m, c.matrix) and abs(np.linalg.norm(m) - math.sqrt(2) * 2 ** (-len(og.measurements) / 2)) < 1e-9
    ob.total("the path graph with outcomes 0 realises the gate", ((c.value, holds(c)) for c in ALL))

def gen(rng, tier):
    while True:
        yield [rng.randrange(24), rng.uniform(0, 6.3), rng.uniform(0.01, 20), rng.randrange(2 ** 31), rng.random() < 0.5]

@P.bounded("recognise", [F + "try_from_matrix"], gen, "random scalars times gates, and random non-Clifford unitaries", quick=4, thorough=60)
def recognise(case):
    v, ph, r, sd, cl = case
    z = r * cmath.exp(1j * ph)
    if cl:
        assert Clifford.try_from_matrix(z * Clifford(v).matrix) is Clifford(v), "scalar multiple not recognised"
    else:
        u = M.rand_unitary(np.random.default_rng(sd), 2)
        if any(abs(abs(np.trace(u.conj().T @ o)) / 2 - 1) < 1e-3 for o in OWN):
            return "skip"
        assert Clifford.try_from_matrix(z * u) is None, "non-Clifford recognised"

@P.bounded("concrete domains", [F + "commute_domains", F + "to_opengraph", F + "measure"], lambda rng, tier: ([v, k] for v in range(24) for k in range(16)),
           "every gate, all overlaps of two sets over two labels", quick=4, thorough=10)
def concrete_domains(case):
    v, k = case; c = Clifford(v)
    s, t = {i for i in range(2) if k >> i & 1}, {i for i in range(2) if k >> (2 + i) & 1}
    d = c.commute_domains(Domains(set(s), set(t)))
    for o in itertools.product((0, 1), repeat=2):
        par = lambda z: sum(o[i] for i in z) % 2
        p = np.linalg.matrix_power
        assert M.prop_equal(p(M.X, par(s)) @ p(M.Z, par(t)) @ c.matrix, c.matrix @ p(M.X, par(d.s_domain)) @ p(M.Z, par(d.t_domain))), f"domains {s} {t} through {c}"
    assert d.s_domain is not s and d.t_domain is not t
