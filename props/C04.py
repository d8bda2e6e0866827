from __future__ import annotations
import itertools, random, types
import numpy as np
from gv import boot, mats as M, psim, gen as G  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.extract import rebind
from graphix import command, simulator
from graphix.branch_selector import FixedBranchSelector, RandomBranchSelector
from graphix.clifford import Clifford
from graphix.command import C, CommandKind, E, M as Meas, N, S, T, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.ops import Ops
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod, PatternSimulator
from graphix.sim.base_backend import DenseStateBackend

P = Prop("C04", "proof",
    "The adaptive-measurement rule is proved for arbitrary parity sets and outcomes (the domain enters the code only through the sum "
    "of the recorded outcomes over it), composed with the Clifford contract of measurements (C03); the backend methods are proved to "
    "address the indexed qubit with the right operator for an arbitrary index map; the command loop is checked per command kind. "
    "Whole executions (random runnable patterns with all command kinds, random branches, two backends, random input states) are the "
    "bounded stand-in for the loop over commands.",
    ["state operations are used through their contracts (C17, C18), the index through its contract (C30)"],
    ["semantics of patterns in gv/psim.py"])
SM, BB = "graphix/simulator.py:", "graphix/sim/base_backend.py:DenseStateBackend."

class Token:
    """An arbitrary element of an arbitrary domain."""
class Results:
    """An arbitrary outcome record: looking up the token yields its (arbitrary) outcome."""
    def __init__(self, tok): self.tok = tok; self.val = object(); self.reads = 0
    def __getitem__(self, k):
        if k is not self.tok: raise Unfit("an outcome that is not in the domain is read")
        self.reads += 1
        return self.val
class Dom:
    """An arbitrary set, iterated once; each element contributes in the same way."""
    def __init__(self, tok): self.tok = tok; self.n = 0
    def __iter__(self): self.n += 1; return iter([self.tok])
class Parity:
    def __init__(self, p): self.p = p
    def __mod__(self, m):
        if m != 2: raise Unfit("sum of outcomes taken modulo something else than 2")
        return self.p
    def __and__(self, m):
        if m != 1: raise Unfit("sum of outcomes masked with something else than 1")
        return self.p
def sum_contract(results_by_dom):
    def f(it, start=0):
        vals = list(it)
        if len(vals) != 1 or start != 0: raise Unfit("not a sum over the domain")
        for val, parity in results_by_dom:
            if vals[0] is val: return Parity(parity)
        raise Unfit("the summed values are not the recorded outcomes of the domain")
    return f

@P.proof("adaptive basis", [SM + "DefaultMeasureMethod.describe_measurement"], backend="pointwise sums over arbitrary sets")
def _(ob):
    ms = [*PauliMeasurement, *(BlochMeasurement(a, p) for p in Plane for a in (0.0, 0.3, 0.5, 1.7))]
    for m in ms:
        for ps, pt in itertools.product((0, 1), repeat=2):
            ts, tt = Token(), Token()
            vs, vt = object(), object()
            class R:
                def __getitem__(self, k):
                    if k is ts: return vs
                    if k is tt: return vt
                    raise Unfit("other outcome read")
            f = rebind(DefaultMeasureMethod.describe_measurement, sum=sum_contract([(vs, ps), (vt, pt)]))
            self = DefaultMeasureMethod(); self.results = R()
            cmd = Meas(3, m, Dom(ts), Dom(tt))
            r = f(self, cmd)
            def b(meas, o):
                return psim.bra(meas, o)
            def want(o):
                x = psim.bra(m, o)
                if pt: x = x * np.array([1, -1])
                if ps: x = x[::-1]
                return x
            ob.check(f"{m}, parities s={ps} t={pt}: basis conjugated by X^s Z^t for all domains and outcomes",
                     all(M.prop_equal(psim.bra(r, o), want(o)) for o in (0, 1)) and cmd.measurement is m)

@P.proof("conditions", [SM + "MeasureMethod.check_domain", SM + "DefaultMeasureMethod.measurement_outcome", SM + "DefaultMeasureMethod.store_measurement_outcome"], backend="pointwise sums over arbitrary sets")
def _(ob):
    for p in (0, 1):
        tok = Token(); val = object()
        mm = DefaultMeasureMethod(); mm.results = {tok: val}
        f = rebind(simulator.MeasureMethod.check_domain, sum=sum_contract([(val, p)]))
        ob.check(f"check_domain is the parity of the recorded outcomes ({p})", bool(f(mm, Dom(tok))) == bool(p))
    mm = DefaultMeasureMethod()
    for n, r in ((3, 1), (5, 0), (3, 0)):
        mm.store_measurement_outcome(n, r)
    ob.check("outcomes are stored under their node, the last one wins", mm.results == {3: 0, 5: 0} and mm.measurement_outcome(5) == 0 and mm.measurement_outcome(3) == 0)
    src = {4: 1}
    mm = DefaultMeasureMethod(src); mm.store_measurement_outcome(9, 1)
    ob.check("a supplied record is copied", src == {4: 1} and mm.results == {4: 1, 9: 1})

class Rec:
    """Recording stand-in for a state / backend."""
    def __init__(self): self.calls = []; self.nqubit = 0
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f

@P.proof("backend methods", [BB + "entangle_nodes", BB + "correct_byproduct", BB + "apply_single", BB + "apply_clifford", BB + "apply_noise", BB + "add_nodes",
                             BB + "finalize", BB + "measure"], backend="arbitrary index map (uninterpreted tokens)")
def _(ob):
    class Idx(dict):
        def index(self, n): return ("pos", n)
    class Be:
        apply_single = DenseStateBackend.apply_single
        symbolic = False
        def __init__(self): self.state = Rec(); self.node_index = Idx(); self.log = []
    def last(be):
        if len(be.state.calls) != 1: raise Unfit(f"state calls {be.state.calls}")
        return be.state.calls[0]
    def ev(call, op):
        name, a, k = call
        if name != "evolve_single": raise Unfit(f"state operation {name}")
        d = dict(zip(("op", "qubit"), a)) | k
        return np.allclose(d["op"], op) and d["qubit"] == ("pos", "n")
    be = Be(); DenseStateBackend.apply_single(be, "n", M.S); ob.check("apply_single acts on the indexed qubit", ev(last(be), M.S))
    for c in Clifford:
        be = Be(); DenseStateBackend.apply_clifford(be, "n", c); ob.check(f"apply_clifford({c.value})", ev(last(be), c.matrix))
    for k, m in ((X, M.X), (Z, M.Z)):
        be = Be(); DenseStateBackend.correct_byproduct(be, k("n", {1})); ob.check(f"correct_byproduct {k.__name__}", ev(last(be), m))
    be = Be(); DenseStateBackend.entangle_nodes(be, ("u", "v"))
    name, a, k = last(be)
    ob.check("entangle_nodes applies controlled-Z on the two indexed qubits", name == "entangle" and set(*(list(a) or list(k.values()))) == {("pos", "u"), ("pos", "v")})
    from graphix.sim.density_matrix import DensityMatrix  # noqa: F401
    be = Be(); DenseStateBackend.apply_noise(be, types.SimpleNamespace(nodes=["u", "v"], noise="noise"))
    name, a, k = last(be)
    d = dict(zip(("qubits", "noise"), a)) | k
    ob.check("apply_noise acts on the indexed qubits in order", name == "apply_noise" and list(d["qubits"]) == [("pos", "u"), ("pos", "v")] and d["noise"] == "noise")

    class MB(Be):
        pass
    for m in [*PauliMeasurement, *(BlochMeasurement(a, p) for p in Plane for a in (0.2, 0.5, 1.4))]:
        for o in (0, 1):
            for lazy in (False, True):
                be = Be(); removed = []
                be.node_index.remove = removed.append
                seen = {}
                class St:
                    def expectation_single(self, op, loc): seen["exp"] = (op, loc); return complex(0.25)
                    def project_qubit(self, op, loc): seen["proj"] = (op, loc)
                be.state = St()
                class Sel:
                    def measure(self, node, f, rng=None, *, stacklevel=1):
                        seen["sel"] = (node, rng)
                        if lazy: seen["p"] = f()
                        return o
                be.branch_selector = Sel()
                rg = object()
                r = DenseStateBackend.measure(be, "n", m, rng=rg)
                pr = lambda o: np.outer(psim.bra(m, o).conj(), psim.bra(m, o))
                good = (r == o and seen["sel"] == ("n", rg) and removed == ["n"] and np.allclose(seen["proj"][0], pr(o)) and seen["proj"][1] == ("pos", "n")
                        and (not lazy or (np.allclose(seen["exp"][0], pr(0)) and seen["exp"][1] == ("pos", "n") and abs(seen["p"] - .25) < 1e-12)))
                ob.check(f"measure {m}, outcome {o}, {'Born' if lazy else 'prescribed'}: projects the indexed qubit on the outcome's projector, removes the node, forwards the generator", good)

@P.proof("command loop", [SM + "PatternSimulator.run", SM + "MeasureMethod.measure", SM + "DefaultPrepareMethod.prepare"], backend="recording backend, per command kind")
def _(ob):
    from graphix.pattern import Pattern
    from graphix.sim.base_backend import Backend
    from graphix.noise_models.noise_model import ApplyNoise
    class B(Backend):
        state = None
        nqubit = 0
        def __init__(self): object.__setattr__(self, "log", [])
        def add_nodes(self, nodes, data=None): self.log.append(("N", list(nodes), data))
        def entangle_nodes(self, edge): self.log.append(("E", tuple(edge)))
        def measure(self, node, measurement, rng=None, *, stacklevel=1): self.log.append(("M", node, measurement, rng)); return self.out[node]
        def correct_byproduct(self, cmd): self.log.append((cmd.kind.name, cmd.node))
        def apply_clifford(self, node, clifford): self.log.append(("C", node, clifford))
        def apply_noise(self, cmd): self.log.append(("Noise", cmd))
        def finalize(self, output_nodes): self.log.append(("F", list(output_nodes)))
    st = G.STATES[2]
    for o in (0, 1):
        p = Pattern(input_nodes=[0, 1])
        m = Measurement.XY(0.3)
        p.extend([N(2, st), E((0, 2)), C(1, Clifford.H), T(), Meas(0, m), X(2, {0}), Z(1, {0}), X(1, set()), Meas(1, Measurement.YZ(0.7), {0}, set())])
        be = B(); object.__setattr__(be, "out", {0: o, 1: 1})
        sim = PatternSimulator(p, be); rg = np.random.default_rng(0)
        sim.run(input_state=G.STATES[0], rng=rg)
        m1 = Measurement.YZ(0.7).clifford(Clifford.X) if o else Measurement.YZ(0.7)
        want = [("N", [0, 1], G.STATES[0]), ("N", [2], st), ("E", (0, 2)), ("C", 1, Clifford.H), ("M", 0, m, rg)]
        if o: want += [("X", 2), ("Z", 1)]
        want += [("M", 1, m1, rg), ("F", [2])]
        ob.structural(f"every command acts once, in order, conditioned on the recorded outcome {o}", be.log == want and sim.measure_method.results == {0: o, 1: 1}, witness=dict(log=str(be.log), expected=str(want)))
    p = Pattern(input_nodes=[0]); p.extend([Meas(0, Measurement.X), S(0, set())])
    be = B(); object.__setattr__(be, "out", {0: 0})
    def raises():
        try:
            PatternSimulator(p, be).run()
        except ValueError:
            return True
        return False
    ob.check("signal commands are refused", raises())

def gen(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 8), lambda r: r.random() < 0.3)

@P.bounded("executions", [SM + "PatternSimulator.run", BB + "measure", BB + "finalize", "graphix/pattern.py:Pattern.simulate"], gen,
           "random runnable patterns, 1..7 nodes, at most 6 live, all command kinds, random branches and input states", quick=14, thorough=200)
def executions(case):
    seed, n, dm = case
    r = random.Random(seed); rng = np.random.default_rng(seed % 2 ** 32)
    p = G.pattern(r, n, ticks=0.1, live=5 if dm else 6)
    ms = psim.measured(p)
    out = {v: r.randrange(2) for v in ms}
    k = len(p.input_nodes)
    from graphix.sim.statevec import Statevector
    mode = r.randrange(3)
    if mode == 0:
        inp, data = M.kron(*[np.array([M.S2, M.S2])[:, None]] * k).ravel() if k else np.ones(1, complex), None
    elif mode == 1 or k == 0:
        sts = [r.choice(G.STATES) for _ in range(k)]
        inp = M.kron(*[s.to_statevector_numpy()[:, None] for s in sts]).ravel() if k else np.ones(1, complex); data = sts
    else:
        inp = M.rand_state(rng, k); data = Statevector(inp)
    a, _ = psim.branch(p, out)
    want = a @ inp
    w = np.linalg.norm(want)
    rnd = r.random() < 0.3
    mm = DefaultMeasureMethod()
    sel = RandomBranchSelector() if rnd else FixedBranchSelector(out)
    if not rnd and w < 1e-6:
        return "skip"
    kw = {} if data is None else dict(input_state=data)
    before = repr(list(p))
    st = p.simulate("densitymatrix" if dm else "statevector", branch_selector=sel, measure_method=mm, rng=np.random.default_rng(seed % 1000), **kw)
    assert repr(list(p)) == before, "simulation modified the pattern"
    if not rnd:
        assert mm.results == out, f"recorded {mm.results}, prescribed {out}"
    else:
        assert set(mm.results) == set(ms), f"recorded {mm.results} for {ms}"
        a, _ = psim.branch(p, mm.results); want = a @ inp; w = np.linalg.norm(want)
        assert w > 1e-9, "a branch of probability zero was selected"
    want = want / w
    if dm:
        got = np.asarray(st.rho, dtype=complex)
        assert np.allclose(got, np.outer(want, want.conj()), atol=1e-7), f"density matrix of branch {mm.results}"
    else:
        got = np.asarray(st.psi).ravel()
        assert M.phase_equal(got, want, 1e-6), f"state of branch {mm.results}: {got} expected {want}"
