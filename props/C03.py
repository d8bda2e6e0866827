from __future__ import annotations
import itertools, math
import numpy as np
from gv import boot, mats as M, exact, psim, gen as G  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.extract import rebind, NP, MathProxy
from gv.symset import SymSet
from graphix import measurements as me, command
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement

P = Prop("C03", "proof",
    "Pauli measurements and the 24 gates are enumerated; planar measurements are handled for every angle by exact evaluation of "
    "the real methods on an arbitrary angle, on the symbolic and the float code path (all outcomes of comparisons on the angle). "
    "Pauli recognition is proved for every integer multiple of pi/2 given the contracts of round and isclose. Projectors are "
    "proved for every Bloch vector (real x, y, z). Float rounding behaviour (range [0, 2), tolerances) is bounded.",
    ["floating-point coefficients compared with tolerance 1e-9"], ["matrix algebra of gv/mats.py", "basis vectors of gv/psim.py (bra)"])
F = "graphix/measurements.py:"
PM = list(PauliMeasurement)
CL = list(Clifford)
T = exact.Var("t")

def basis(m):
    return [psim.bra(m, 0), psim.bra(m, 1)]

def same_basis(a, b):
    return all(M.prop_equal(psim.bra(a, o), psim.bra(b, o)) for o in (0, 1))

def unf(m):
    """float-path symbolic angle -> exact angle"""
    return BlochMeasurement(m.angle.a, m.plane) if isinstance(m.angle, exact.FAng) else m

@P.proof("pauli", [F + "PauliMeasurement.to_bloch", F + "PauliMeasurement.__neg__", F + "PauliMeasurement.__pos__", F + "PauliMeasurement.to_pauli",
                   F + "PauliMeasurement.clifford", F + "PauliMeasurement.to_pauli_or_none", F + "PauliMeasurement.to_pauli_or_bloch",
                   F + "PauliMeasurement.to_plane_or_axis", F + "PauliMeasurement.downcast_bloch", F + "PauliMeasurementMeta.__iter__",
                   F + "PauliMeasurement.with_parameter", F + "PauliMeasurement.with_parameters"])
def _(ob):
    ob.check("iteration yields the six signed axes", len(PM) == 6 and len(set(PM)) == 6)
    ob.total("to_bloch has the same basis and labels", ((str(m), same_basis(m, m.to_bloch())) for m in PM))
    conv = {"+X": ("XY", 0), "-X": ("XY", 1), "+Y": ("XY", .5), "-Y": ("XY", 1.5), "+Z": ("YZ", 0), "-Z": ("YZ", 1)}
    ob.total("to_bloch follows the documented convention", ((str(m), (m.to_bloch().plane.name, m.to_bloch().angle) == conv[str(m)]) for m in PM))
    ob.total("negation exchanges the two outcomes", ((str(m), M.prop_equal(psim.bra(-m, 0), psim.bra(m, 1)) and M.prop_equal(psim.bra(-m, 1), psim.bra(m, 0)) and +m == m and -(-m) == m) for m in PM))
    ob.total("to_pauli is the observable", ((str(m), all(np.allclose(psim.bra(m, o) @ m.to_pauli().matrix, (-1) ** o * psim.bra(m, o)) for o in (0, 1))) for m in PM))
    ob.total("identity conversions", ((str(m), m.to_pauli_or_none() is m and m.to_pauli_or_bloch() is m and m.to_plane_or_axis() is m.axis
             and m.with_parameters({T: 1.0}) == m and m.with_parameter(T, 1.0) == m) for m in PM))
    def dc(m):
        try:
            m.downcast_bloch()
        except TypeError:
            return True
        return False
    ob.total("downcast_bloch refuses Pauli measurements", ((str(m), dc(m)) for m in PM))
    ob.total("clifford: <m'_o| is <m_o| C", (((str(m), c.value), all(M.prop_equal(psim.bra(m.clifford(c), o), psim.bra(m, o) @ c.matrix) for o in (0, 1))) for m in PM for c in CL))
    ob.total("class constants", ((n, getattr(Measurement, n) == PauliMeasurement(Axis[n], Sign.PLUS)) for n in "XYZ"))

@P.proof("bloch clifford", [F + "BlochMeasurement.clifford", F + "BlochMeasurement.to_bloch", F + "BlochMeasurement.downcast_bloch", F + "BlochMeasurement.to_plane",
                            F + "Measurement.XY", F + "Measurement.YZ", F + "Measurement.XZ", "graphix/command.py:M.clifford"], backend="exact algebra (all angles)")
def _(ob):
    f = rebind(BlochMeasurement.clifford)
    def fits(m, r):
        return all(exact.proportional(psim.bra(r, o), np.array([sum((exact.LP.of(x) * complex(c.matrix[i, j]) for i, x in enumerate(psim.bra(m, o))), exact.LP()) for j in range(2)], dtype=object)) for o in (0, 1))
    for pl in Plane:
        mk = {Plane.XY: Measurement.XY, Plane.YZ: Measurement.YZ, Plane.XZ: Measurement.XZ}[pl]
        m = mk(T)
        ob.check(f"constructor {pl.name}", m.plane is pl and m.angle is T and m.to_bloch() is m and m.downcast_bloch() is m and m.to_plane() is pl)
        for c in CL:
            real = lambda t: all(M.prop_equal(psim.bra(BlochMeasurement(t, pl).clifford(c), o), psim.bra(BlochMeasurement(t, pl), o) @ c.matrix) for o in (0, 1))
            ob.exact(f"{pl.name}, gate {c.value}: <m'_o| ~ <m_o| C for every symbolic angle", fits(m, m.clifford(c)), ["t"], real)
            ok = True
            for _ in exact.Choices():
                r = unf(f(BlochMeasurement(exact.FAng(T), pl), c))
                ok = ok and fits(m, r)
            ob.exact(f"{pl.name}, gate {c.value}: <m'_o| ~ <m_o| C for every float angle", ok, ["t"], real)
    # command level: domains are carried through commute_domains (contract proved in C01), measurement through clifford
    def cmd(m, c):
        s, t = SymSet({"s"}), SymSet({"t"})
        r = command.M(7, m, s, t).clifford(c)
        if r.node != 7 or s.f != {"s"} or t.f != {"t"} or r.s_domain is s or r.t_domain is t:
            return False
        for vs, vt, o in itertools.product((0, 1), repeat=3):
            v = lambda d: sum({"s": vs, "t": vt}[x] for x in d.f) % 2
            def b(meas, ps, pt):
                x = psim.bra(meas, o)
                if pt: x = x * np.array([1, -1])
                if ps: x = x[::-1]
                return x
            if not M.prop_equal(b(r.measurement, v(r.s_domain), v(r.t_domain)), b(m, vs, vt) @ c.matrix):
                return False
        return True
    ms = [*PM, *(BlochMeasurement(a, p) for p in Plane for a in (0.3, 1.2))]
    ob.total("M.clifford realises 'C then M' for every assignment of the two parities (all sets)", (((str(m), c.value), cmd(m, c)) for m in ms for c in CL))

class IntClass:
    """An arbitrary integer congruent to r modulo 4 (the code may only look at it modulo 4, 2 or 1)."""
    def __init__(self, r): self.r = r
    def __mod__(self, m):
        if m in (1, 2, 4):
            return self.r % m
        raise Unfit(f"integer looked at modulo {m}")
    def __getattr__(self, a): raise Unfit(f"operation {a} on an arbitrary integer")

@P.proof("pauli recognition", [F + "BlochMeasurement.to_pauli_or_none", F + "BlochMeasurement.to_pauli_or_bloch"], backend="case split on residues (all integers)")
def _(ob):
    ob.assume("contract of builtins: round(x) is an integer k, math.isclose(x, k) means 2*angle is taken to be k")
    calls = {}
    class MP:
        def __getattr__(self, a): raise Unfit(f"math.{a}")
        def isclose(self, a, b, *, rel_tol, abs_tol):
            calls["tol"] = (rel_tol, abs_tol)
            k = [x for x in (a, b) if isinstance(x, IntClass)]
            x = [x for x in (a, b) if isinstance(x, exact.FAng)]
            if len(k) != 1 or len(x) != 1 or not x[0].a.same(T * 2):
                raise Unfit("isclose is not applied to twice the angle and its rounding")
            return calls["close"]
    for pl in Plane:
        for res in range(4):
            for cl in (True, False):
                calls.clear(); calls["close"] = cl
                def rnd(x):
                    if not isinstance(x, exact.FAng) or not x.a.same(T * 2):
                        raise Unfit("rounding of something else than twice the angle")
                    return IntClass(res)
                f = rebind(BlochMeasurement.to_pauli_or_none, round=rnd, math=MP())
                m = BlochMeasurement(exact.FAng(T), pl)
                r = f(m, 1e-9, 0.0)
                if cl:
                    ob.check(f"{pl.name}: 2*angle = 4j + {res} for any integer j is recognised with basis and labels", isinstance(r, PauliMeasurement) and same_basis(r, BlochMeasurement(res / 2, pl)))
                else:
                    ob.check(f"{pl.name}: other angles are not Pauli ({res})", r is None)
    ob.total("symbolic angles are never Pauli", ((pl.name, BlochMeasurement(T, pl).to_pauli_or_none() is None and BlochMeasurement(T, pl).to_pauli_or_bloch() == BlochMeasurement(T, pl)) for pl in Plane))
    ob.total("integer multiples of pi/2", (((pl.name, k), same_basis(BlochMeasurement(k / 2, pl).to_pauli_or_none(), BlochMeasurement(k / 2, pl))
             and BlochMeasurement(k / 2, pl).to_pauli_or_bloch() == BlochMeasurement(k / 2, pl).to_pauli_or_none()) for pl in Plane for k in range(-9, 10)))

@P.proof("projectors", ["graphix/sim/base_backend.py:_outcome_to_operator_matrix"], backend="exact algebra (affine in x, y, z)")
def _(ob):
    from graphix.sim import base_backend as bb
    f = need(bb, "_outcome_to_operator_matrix")
    # the function is affine in the vector: check on an affine basis with symbolic coordinates
    v = [exact.Var(n) for n in "xyz"]
    for o in (0, 1):
        r = f(tuple(v), o, symbolic=True)
        ok = True
        for i in range(2):
            for j in range(2):
                d = exact.Ang({n: (-1) ** o * complex(m[i, j]) / 2 for n, m in zip("xyz", (M.X, M.Y, M.Z))}, complex(i == j) / 2)
                got = r[i, j] if isinstance(r[i, j], exact.Ang) else exact.Ang({}, r[i, j])
                ok = ok and got.same(d)
        ob.check(f"symbolic mode, outcome {o}: (1 + (-1)^o v.sigma)/2 for every vector", ok)
    aff = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (0.3, -0.4, 0.86), (1, 0, 0), (0, -1, 0)]
    ob.total("numeric mode on an affine basis", (((a, o), np.allclose(f(a, o), M.projector(a, o)) and f(a, o).dtype == np.complex128) for a in aff for o in (0, 1)))
    # composition with polar: the two projectors are |m_o><m_o|
    for pl in Plane:
        for o in (0, 1):
            vec = pl.polar(T)
            r = f(tuple(vec), o, symbolic=True)
            b = exact.lp_array(psim.bra(BlochMeasurement(T, pl), o))
            want = np.array([[b[i].conjugate() * b[j] for j in range(2)] for i in range(2)], dtype=object)
            ob.check(f"{pl.name}, outcome {o}: projector on the documented basis vector for every angle", exact.equal(r, want))

@P.proof("closeness", [F + "BlochMeasurement.isclose", F + "PauliMeasurement.isclose"], "all kinds of angles and planes (contract of math.isclose)")
def closeness(ob):
    """Bloch measurements are close exactly if the planes agree and the angles are close (floats; contract of math.isclose) or equal (expressions); never close to a Pauli measurement."""
    from graphix.parameter import Placeholder
    from gv.extract import rebind
    fn = BlochMeasurement.isclose; a, b = Placeholder("a"), Placeholder("b")
    for p, q in itertools.product(Plane, repeat=2):
        for verdict, tol in itertools.product((True, False), ({}, dict(rel_tol=.25), dict(abs_tol=.5), dict(rel_tol=.25, abs_tol=.5))):
            asked = []
            class Math:
                @staticmethod
                def isclose(x, y, *, rel_tol=1e-9, abs_tol=0.0): asked.append((sorted((x, y)), rel_tol, abs_tol)); return verdict
            try: ok = bool(rebind(fn, math=Math)(BlochMeasurement(.3, p), BlochMeasurement(.7, q), **tol)) is (verdict and p == q) and all(x == ([.3, .7], tol.get("rel_tol", 1e-9), tol.get("abs_tol", 0.0)) for x in asked) and (asked or p != q)
            except Exception: ok = False      # noqa: BLE001
            ob.structural(f"{p.name}, {q.name}, angles {'close' if verdict else 'not close'}, {tol}", bool(ok))
        for x, y in itertools.product((a, b, .3), repeat=2):
            if x == y == .3: continue
            got = fn(BlochMeasurement(x, p), BlochMeasurement(y, q)); want = x is y and p == q
            ob.check(f"{p.name}, {q.name}, angles {x}, {y}: close exactly if both agree", bool(got) is want, None if bool(got) is want else dict(got=repr(got)))
        for ax, s, x in itertools.product(Axis, Sign, (a, 0.0, .5)):
            got = fn(BlochMeasurement(x, p), PauliMeasurement(ax, s)), PauliMeasurement(ax, s).isclose(BlochMeasurement(x, p))
            ob.check(f"{p.name} angle {x} is not close to the Pauli measurement {ax.name} {s.name}", not any(got))
    ps = [PauliMeasurement(ax, s) for ax in Axis for s in Sign]
    for x, y in itertools.product(ps, repeat=2): ob.check(f"{x} and {y}: close exactly if equal", x.isclose(y) is (x == y) and (x == y) is (x.axis == y.axis and x.sign == y.sign))

def gen(rng, tier):
    while True:
        a = rng.choice([rng.uniform(0, 2), rng.uniform(-6, 6), rng.choice([k / 2 for k in range(-6, 9)]), rng.choice([k / 2 for k in range(-6, 9)]) + rng.choice([1e-12, -1e-12, 1e-5, -1e-5, 3e-10, 1e-7])])
        yield [a, rng.randrange(3), rng.randrange(24), rng.randrange(24)]

@P.bounded("floats", [F + "BlochMeasurement.clifford", F + "BlochMeasurement.to_pauli_or_none", F + "BlochMeasurement.isclose", "graphix/sim/base_backend.py:DenseStateBackend"], gen,
           "random, special and near-special float angles times planes times pairs of gates", quick=6, thorough=60)
def floats(case):
    a, p, c1, c2 = case
    pl = list(Plane)[p]; m = BlochMeasurement(a, pl); g, h = Clifford(c1), Clifford(c2)
    r = m.clifford(g)
    for o in (0, 1):
        assert M.prop_equal(psim.bra(r, o), psim.bra(m, o) @ g.matrix), f"{m}.clifford({g}) = {r} is another basis"
        assert M.prop_equal(psim.bra(r.clifford(h), o), psim.bra(m, o) @ g.matrix @ h.matrix)
    if 0 <= a < 2:
        assert 0 <= r.angle <= 2, f"angle out of [0, 2): {m} -> {r}"
    near = round(2 * a)
    is_pauli = math.isclose(2 * a, near, rel_tol=1e-9, abs_tol=0.0)
    q = m.to_pauli_or_none()
    assert (q is not None) == is_pauli, f"{m}.to_pauli_or_none() = {q}"
    if q is not None:
        assert all(M.prop_equal(psim.bra(q, o), psim.bra(m, o), 1e-5) for o in (0, 1)), f"{m} recognised as {q}"
        assert m.to_pauli_or_bloch() == q and q.clifford(g).to_bloch().to_pauli_or_none() == q.clifford(g)
    else:
        assert m.to_pauli_or_bloch() is m
    q2 = m.to_pauli_or_none(abs_tol=1e-4)
    assert (q2 is not None) == math.isclose(2 * a, near, rel_tol=1e-9, abs_tol=1e-4)
    b = BlochMeasurement(a + 1e-12, pl)
    assert m.isclose(m) and m.isclose(BlochMeasurement(a, pl)) and not m.isclose(BlochMeasurement(a, list(Plane)[(p + 1) % 3])) and not m.isclose(BlochMeasurement(a + 0.1, pl))
    assert m.isclose(b, abs_tol=1e-9) and not m.isclose(PauliMeasurement(Axis.X))
    # what a backend does with the description
    from graphix.sim.statevec import StatevectorBackend
    from graphix.branch_selector import ConstBranchSelector
    rng = np.random.default_rng(c1 * 24 + c2)
    psi = M.rand_state(rng, 2)
    for o in (0, 1):
        be = StatevectorBackend(branch_selector=ConstBranchSelector(o))
        from graphix.sim.statevec import Statevector
        be.add_nodes([5, 9], Statevector(psi))
        assert be.measure(9, m) == o
        want = (psi.reshape(2, 2) @ psim.bra(m, o))
        assert M.phase_equal(np.asarray(be.state.psi).ravel(), want / np.linalg.norm(want)), f"post-measurement state of {m}, outcome {o}"
