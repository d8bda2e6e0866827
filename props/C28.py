from __future__ import annotations
import itertools, math, random, threading, warnings
import numpy as np
from gv import boot, exact, gen as G, mats as M, psim, sym  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.extract import rebind
from gv.sym import Engine
from graphix import command, random_objects
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.fundamentals import Plane
from graphix.measurements import BlochMeasurement
from graphix.noise_models import DepolarisingNoiseModel, ComposeNoiseModel, AmplitudeDampingNoiseModel
from graphix.rng import ensure_rng
from graphix.sim.tensornet import TensorNetworkBackend
from graphix.sim.base_backend import DenseStateBackend
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
z3 = boot.z3()

BS, BB = "graphix/branch_selector.py:", "graphix/sim/base_backend.py:"
P = Prop("C28", "proof",
    "RandomBranchSelector.measure is executed for an arbitrary real probability p and an arbitrary variate u of [0, 1) (z3): the outcome is the comparison of u with p, outcome 0 is impossible at p <= 0 "
    "and outcome 1 at p >= 1; the other selectors, ensure_rng, DenseStateBackend.measure, MeasureMethod.measure and the simulator loop are executed on opaque stand-ins (arbitrary qubits, outcomes, "
    "generators, states) that may only be passed around. Seeded reproducibility and thresholds of whole simulations are the bounded part.",
    ["numpy's Generator.random() returns a number of [0, 1) that is uniformly distributed; Generator.choice on two elements is fair",
     "floating-point probabilities are treated as real numbers: no rounding in the comparison itself",
     "the probability handed over is the Born probability because expectation_single is the expectation value (C18) and the operator the projector (C03)"],
    ["numpy random generators", "warnings"])

class Tok:
    """An opaque value: may only be passed around."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"<{self.n}>"
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __bool__ = __len__ = __iter__ = __lt__ = __add__ = __mul__ = __float__ = __int__ = __index__ = __contains__ = _no
    __hash__ = object.__hash__

class R:
    """An arbitrary real number (z3)."""
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x):
        if isinstance(x, R): return x.e
        if isinstance(x, (int, float, np.floating, np.integer)): return z3.RealVal(float(x).hex() and str(float(x)))
        raise Unfit(f"real expected, got {x!r}")
    def __lt__(self, o): return sym.SBool(self.e < R.of(o))
    def __le__(self, o): return sym.SBool(self.e <= R.of(o))
    def __gt__(self, o): return sym.SBool(self.e > R.of(o))
    def __ge__(self, o): return sym.SBool(self.e >= R.of(o))
    def __eq__(self, o): return sym.SBool(self.e == R.of(o))
    def __ne__(self, o): return sym.SBool(self.e != R.of(o))
    def __add__(self, o): return R(self.e + R.of(o))
    __radd__ = __add__
    def __sub__(self, o): return R(self.e - R.of(o))
    def __rsub__(self, o): return R(R.of(o) - self.e)
    def __neg__(self): return R(-self.e)
    def _no(self, *a): raise Unfit("a symbolic real is converted")
    __float__ = __int__ = __bool__ = __index__ = _no
    __hash__ = None
    def clip(self, lo, hi): return R(z3.If(self.e < R.of(lo), R.of(lo), z3.If(self.e > R.of(hi), R.of(hi), self.e)))

class Draws:
    """A generator with arbitrary results."""
    def __init__(self, eng):
        self.eng = eng; self.u = []; self.picks = []
    def random(self, *a, **k):
        if a or k: raise Unfit("random with arguments")
        e = z3.Real(self.eng.fresh("u")); self.eng.assume(z3.And(e >= 0, e < 1)); self.u.append(e); return R(e)
    def uniform(self, low=0.0, high=1.0, size=None):
        if (low, high, size) != (0, 1, None): raise Unfit("uniform with other bounds")
        return self.random()
    def _pick(self):
        b = int(self.eng.choose()); self.picks.append(b); return b
    def choice(self, a, *r, **k):
        if r or k or sorted(a) != [0, 1]: raise Unfit(f"choice of {a}")
        return list(a)[self._pick()]
    def integers(self, *a, **k):
        if k or list(a) not in ([2], [0, 2]): raise Unfit("integers with other bounds")
        return self._pick()
    def __getattr__(self, a): raise Unfit(f"generator method {a}")

@P.proof("random selection", [BS + "RandomBranchSelector.measure"], backend="z3")
def random_selection(ob):
    for kind in ("computed", "even"):
        eng = Engine(ob, f"RandomBranchSelector.measure, {kind}")
        def run():
            sel = RandomBranchSelector(pr_calc=kind == "computed"); g = Draws(eng); p = z3.Real("p"); calls = []
            def f():
                calls.append(1); return R(p)
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                r = sel.measure(Tok("qubit"), f, g)
            if isinstance(r, (sym.SBool,)): r = bool(r)
            eng.prove("the result is 0 or 1", r in (0, 1))
            if kind == "computed":
                eng.prove("exactly one variate and nothing else is drawn", len(g.u) == 1 and not g.picks)
                if len(g.u) != 1: return
                u = g.u[0]; eng.cover(f"outcome {r}")
                if r: eng.prove("outcome 1 only for variates not below the probability of outcome 0", u >= p)
                else: eng.prove("outcome 0 only for variates not above the probability of outcome 0", u <= p)
                eng.prove("outcome 0 is never selected if its probability is 0", True if r else p > 0)
                eng.prove("outcome 1 is never selected if the probability of outcome 0 is 1", p < 1 if r else True)
                eng.prove("the probability is asked for", len(calls) >= 1)
            else:
                eng.prove("the probability is not computed", not calls)
                eng.prove("one draw", len(g.u) + len(g.picks) == 1)
                eng.cover(f"outcome {r}")
                if g.u: eng.prove("the variate is compared with 1/2", g.u[0] >= 0.5 if r else g.u[0] <= 0.5)
        eng.explore(run)
        eng.close(["outcome 0", "outcome 1"])
    sel = RandomBranchSelector()
    ob.check("probabilities are computed by default", sel.pr_calc is True)
    # the default generator is used, with a warning, if none is given
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        rs = [sel.measure(Tok("q"), lambda x=x: x, None) for x in (0.0, 1.0)]
    ob.check("no generator: default one, with a warning", [int(x) for x in rs] == [1, 0] and len(w) >= 1)

class Rec(BranchSelector):
    def __init__(self): self.calls = []; self.r = Tok("outcome of the default")
    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.calls.append((qubit, f_expectation0, rng, stacklevel)); return self.r

@P.proof("prescribed outcomes", [BS + "FixedBranchSelector.measure", BS + "ConstBranchSelector.measure"], "opaque arguments")
def prescribed(ob):
    def never(): raise AssertionError("the probability is computed")
    q0, q1, q2, g = Tok("q0"), Tok("q1"), Tok("q2"), Tok("rng")
    for r in (0, 1):
        ob.check(f"the constant selector returns {r}", all(ConstBranchSelector(r).measure(q, never, x) == r for q in (q0, 0, 7) for x in (None, g)))
        for first in (q0, 0, -3):
            for d in (None, Rec()):
                s = FixedBranchSelector({first: r, q1: 1 - r}, d)
                ob.check(f"the fixed selector returns the outcome {r} prescribed for {first!r} (default {d is not None})",
                         s.measure(first, never, g) == r and s.measure(q1, never, None) == 1 - r and (d is None or not d.calls))
                try: x = s.measure(q2, never, g)
                except ValueError: x = "refused"
                if d is None: ob.check(f"another qubit is refused without a default ({r}, {first!r})", x == "refused")
                else:
                    ob.check(f"another qubit goes to the default ({r}, {first!r})", x is d.r and len(d.calls) == 1 and d.calls[0][0] is q2 and d.calls[0][1] is never and d.calls[0][2] is g)
    d = Rec(); s = FixedBranchSelector({}, FixedBranchSelector({q1: 0}, d))
    ob.check("defaults nest", s.measure(q1, never, g) == 0 and s.measure(q0, never, g) is d.r and d.calls == [(q0, never, g, d.calls[0][3])])
    m = {q0: 0}; s = FixedBranchSelector(m); s.measure(q0, never, None)
    ob.check("the prescription is left alone", m == {q0: 0})

@P.proof("generators", ["graphix/rng.py:ensure_rng"], "opaque arguments and execution")
def generators(ob):
    class G0(Tok): pass
    g = G0("rng")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = ensure_rng(g); r2 = ensure_rng(g, stacklevel=5); r3 = ensure_rng(rng=np.random.default_rng(0))
    ob.check("a given generator is returned itself, without a warning", r is g and r2 is g and isinstance(r3, np.random.Generator) and not w)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = ensure_rng(); b = ensure_rng(None)
        other = []
        t = threading.Thread(target=lambda: other.append(ensure_rng())); t.start(); t.join()
    ob.check("no generator: a default generator, with a warning each time", isinstance(a, np.random.Generator) and len(w) >= 2)
    ob.check("the default generator of a thread is kept", a is b)
    ob.check("threads do not share it", bool(other) and other[0] is not a)
    st = np.random.get_state()[1].tobytes()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); ensure_rng().random()
    ob.check("the global state of numpy is not touched", np.random.get_state()[1].tobytes() == st)

RO = ("rand_herm", "rand_unit", "rand_dm", "rand_gauss_cpx_mat", "rand_channel_kraus", "rand_pauli_channel_kraus", "rand_gate", "rand_circuit", "rand_state_vector", "_first_rotation", "_mid_rotation", "_last_rotation", "_entangler_rzz", "_genpair", "_gentriplet")
@P.proof("random objects", ["graphix/random_objects.py:" + f for f in RO], "every other source of randomness is taken away; every control path of the functions")
def random_objects_unit(ob):
    """The functions run with a generator that only records and forwards, while every other source of random numbers visible to the module raises: what is drawn comes from the generator
    given (or from the default one, once none is given), and the rest of the code is deterministic, so equal generators give equal objects."""
    class Rng:
        def __init__(self, seed): self.g, self.draws = np.random.default_rng(seed), []
        def __getattr__(self, a):
            if a not in ("random", "normal", "uniform", "shuffle", "integers", "choice", "permutation", "standard_normal"): raise Unfit(f"generator method {a}")
            f = getattr(self.g, a)
            def call(*x, **k): self.draws.append(a); return f(*x, **k)
            return call
    class Forbidden(Exception): pass
    class No:
        def __getattr__(self, a): raise Forbidden(a)
        def __call__(self, *a, **k): raise Forbidden
    class NP:
        random = No()
        def __getattr__(self, a): return getattr(np, a)
    class Haar:
        @staticmethod
        def rvs(*a, random_state=None, **k):
            if not isinstance(random_state, Rng): raise Forbidden("rvs")
            from scipy.stats import unitary_group
            random_state.draws.append("rvs"); return unitary_group.rvs(*a, random_state=random_state.g, **k)
    flags = [dict(zip(("use_j", "use_cz", "use_rzz", "use_ccx"), f)) for f in itertools.product((True, False), repeat=4)]
    from graphix.parameter import Placeholder
    par = [Placeholder("a"), Placeholder("b")]
    cases = [("rand_herm", (n,), {}) for n in (1, 2, 3)] + [("rand_unit", (n,), {}) for n in (1, 2, 3, 4)] + [("rand_dm", (n,), dict(rank=r)) for n in (1, 2, 4) for r in (None, 1, n)] + \
            [("rand_gauss_cpx_mat", (n,), dict(sig=s)) for n in (1, 2) for s in (None, "ginibre", .5)] + [("rand_channel_kraus", (2,), dict(rank=r, sig=s)) for r in (None, 1, 3) for s in (None, "ginibre")] + \
            [("rand_pauli_channel_kraus", (d,), dict(rank=r)) for d in (2, 4) for r in (None, 1, 3)] + [("rand_gate", (3, d, [(0, 1), (1, 2)]), dict(use_rzz=z)) for d in (1, 2, 3) for z in (True, False)] + \
            [("rand_circuit", (n, d), dict(f, parameters=p)) for n in (2, 3, 4) for d in (0, 1, 2) for f in flags for p in (None, par) if n >= 3 or not f["use_ccx"]] + [("rand_state_vector", (n,), {}) for n in (0, 1, 3)]
    def text(x):
        if isinstance(x, np.ndarray): return x.tobytes()
        if hasattr(x, "instruction"): return repr(x.instruction)
        return repr([(k.coef, k.operator.tobytes()) for k in x])
    mod = random_objects; keep = {k: mod.__dict__[k] for k in ("np", "ensure_rng", "unitary_group", "random") if k in mod.__dict__}
    for name, args, kw in cases:
        f = need(mod, name); outs = []
        try:
            ok = True
            for seed, given in ((3, True), (3, True), (3, False)):
                g = Rng(seed); asked = []
                def ens(rng=None, *, stacklevel=1):
                    asked.append(rng); return g if rng is None else rng
                mod.np = NP(); mod.ensure_rng = ens
                if "unitary_group" in keep: mod.unitary_group = Haar
                if "random" in keep: mod.random = No()
                r = f(*args, **kw, rng=g) if given else f(*args, **kw)
                outs.append((text(r), list(g.draws)))
                ok &= bool(asked) and (all(a is g for a in asked) if given else asked[0] is None and all(a is g for a in asked[1:]))
            ok &= outs[0] == outs[1] == outs[2]
        except Exception: ok = False      # noqa: BLE001
        finally: mod.__dict__.update(keep)
        if not ok:      # the real code
            with warnings.catch_warnings():
                warnings.simplefilter("error"); two = []
                try:
                    for noise in (1, 2): np.random.seed(noise); random.seed(noise); two.append(text(f(*args, **kw, rng=np.random.default_rng(5))))
                except Exception: two = [0, 0]      # noqa: BLE001
            if two[0] != two[1]: ob.check(f"{name}{args} {kw}: equal generators give equal objects", False, dict(function=name, args=repr(args), kw=repr(kw))); continue
        ob.structural(f"{name}{args} {kw}: the generator given is the only source", ok)

T = exact.Var("theta")

class RecState:
    """An arbitrary state: expectation values are given, operations recorded."""
    def __init__(self, p): self.p, self.ops, self.asked = p, [], []
    def expectation_single(self, op, qubit): self.asked.append((op, qubit)); return self.p
    def project_qubit(self, op, qubit): self.ops.append((op, qubit))
    def __getattr__(self, a): raise Unfit(f"state operation {a}")

class RecIndex:
    def __init__(self, node, loc): self.node, self.loc, self.removed = node, loc, []
    def index(self, n):
        if n is not self.node: raise KeyError(n)
        assert not self.removed, "index after removal"
        return self.loc
    def remove(self, n):
        if n is not self.node: raise KeyError(n)
        self.removed.append(n)
    def __getattr__(self, a): raise Unfit(f"index operation {a}")

@P.proof("measurement of a backend", [BB + "DenseStateBackend.measure"], "recording stand-ins, exact algebra over all angles")
def backend_measure(ob):
    meth = DenseStateBackend.measure
    for pl, o, ask in itertools.product(Plane, (0, 1), (0, 1, 2)):
        node, loc, g = Tok("node"), Tok("position"), Tok("rng"); pr = complex(0.3125, 1e-12)
        st, ni = RecState(pr), RecIndex(node, loc); got = []
        class Sel(BranchSelector):
            def measure(self, qubit, f, rng=None, *, stacklevel=1):
                got.append((qubit, rng, [f() for _ in range(ask)]))
                assert not st.ops, "projection before selection"
                return o
        me = type("B", (), dict(state=st, node_index=ni, branch_selector=Sel(), symbolic=True))()
        m = BlochMeasurement(T, pl); nm = f"{pl.name}, outcome {o}, probability asked {ask} times"
        r = meth(me, node, m, g)
        ob.check(f"{nm}: the outcome of the selector is returned", r == o)
        ob.check(f"{nm}: the selector is asked once, for this node, with this generator", len(got) == 1 and got[0][0] is node and got[0][1] is g)
        def proj(k):
            b = exact.lp_array(psim.bra(m, k)); return np.array([[b[i].conjugate() * b[j] for j in range(2)] for i in range(2)], dtype=object)
        ob.check(f"{nm}: the probability is the expectation value of the projector of outcome 0 on the qubit of the node, computed only if asked for",
                 bool(st.asked) == bool(ask) and all(q is loc and exact.equal(op, proj(0)) for op, q in st.asked) and all(x == pr.real for x in got[0][2]))
        ob.check(f"{nm}: the qubit of the node is projected once, on the selected outcome", len(st.ops) == 1 and st.ops[0][1] is loc and exact.equal(st.ops[0][0], proj(o)))
        ob.check(f"{nm}: the node is removed", len(ni.removed) == 1)
    me = type("B", (), dict(state=RecState(1.), node_index=RecIndex(Tok("node"), 0), branch_selector=ConstBranchSelector(0), symbolic=True))()
    try: meth(me, Tok("unknown"), BlochMeasurement(T, Plane.XY), None)
    except KeyError: ok = not me.state.ops
    else: ok = False
    ob.check("an unknown node is refused before anything happens", ok)

@P.proof("forwarding", ["graphix/simulator.py:MeasureMethod.measure", "graphix/simulator.py:PatternSimulator.run", "graphix/pattern.py:Pattern.simulate"], "recording stand-ins")
def forwarding(ob):
    g, node = Tok("rng"), 5
    class Be:
        def __init__(self): self.calls = []
        def measure(self, n, d, rng=None, *, stacklevel=1): self.calls.append((n, d, rng)); return self.r
        r = Tok("result")
    class No:
        def __init__(self): self.calls = []
        def confuse_result(self, cmd, result, rng=None, *, stacklevel=1): self.calls.append((cmd, result, rng)); return self.r
        r = Tok("confused")
    for noise in (None, No()):
        be = Be(); mm = DefaultMeasureMethod(); stored = []
        mm.describe_measurement = lambda c: d
        mm.store_measurement_outcome = lambda n, r: stored.append((n, r))
        d = Tok("description"); c = command.M(node)
        mm.measure(be, c, noise, g)
        ob.structural(f"the measurement forwards the generator (noise {noise is not None})", len(be.calls) == 1 and be.calls[0][0] == node and be.calls[0][1] is d and be.calls[0][2] is g)
        want = be.r if noise is None else noise.r
        ob.structural(f"the result is stored (noise {noise is not None})", len(stored) == 1 and stored[0][0] == node and stored[0][1] is want)
        if noise is not None: ob.structural("the noise model receives the result and the generator", len(noise.calls) == 1 and noise.calls[0][0] is c and noise.calls[0][1] is be.r and noise.calls[0][2] is g)

# ---------------------------------------------------------------------------------------------------------------------------
class Stub:
    """A generator whose uniform variates are prescribed; everything else is refused."""
    def __init__(self, us): self.us = list(us); self.n = 0
    def random(self):
        self.n += 1; return self.us.pop(0)
    def uniform(self, low=0.0, high=1.0, size=None):
        assert (low, high, size) == (0.0, 1.0, None); return self.random()
    def __getattr__(self, a): raise AssertionError(f"the generator is used through {a}")

def strict():
    c = warnings.catch_warnings(); c.__enter__(); warnings.simplefilter("error"); return c

@P.bounded("thresholds", [BS + "RandomBranchSelector.measure", BB + "DenseStateBackend.measure", "graphix/sim/statevec.py:Statevector", "graphix/sim/density_matrix.py:DensityMatrix"],
           lambda rng, tier: G.seeds(rng, lambda r: r.randrange(5)), "states of up to 4 qubits and all kinds of measurements, variates next to the Born probability and at the ends of the interval", quick=6, thorough=60)
def thresholds(case):
    seed, how = case; r = random.Random(seed); g = np.random.default_rng(seed % 2 ** 32)
    n = 1 + r.randrange(4); nodes = r.sample(range(20), n); k = r.randrange(n)
    m = G.measurement(r); b = psim.bra(m, 0); b1 = psim.bra(m, 1)
    if how < 3: v = M.rand_state(g, n)
    else:                     # the measured qubit is in an eigenstate of the measurement
        v = np.array([1.0 + 0j]); e = (b if how == 3 else b1).conj(); e = e / np.linalg.norm(e)
        for i in range(n): v = np.kron(v, e if i == k else M.rand_state(g, 1))
    t = np.moveaxis(v.reshape((2,) * n), k, 0); amp = np.tensordot(b, t, axes=(0, 0)).ravel(); p = float(np.linalg.norm(amp) ** 2 / np.linalg.norm(v) ** 2)
    dm = r.random() < .4
    for u in sorted({0.0, 1 - 2 ** -53, min(max(p - 1e-9, 0.0), 1 - 2 ** -53), min(p + 1e-9, 1 - 2 ** -53), r.random(), r.random()}):
        if p < 1e-12 and u < 1e-10 or p > 1 - 1e-12 and u > 1 - 1e-10: continue        # the computed probability may be rounded to the wrong side of u
        be = DensityMatrixBackend() if dm else StatevectorBackend()
        be.add_nodes(nodes, Statevector(v)); st = Stub([u])
        o = be.measure(nodes[k], m, st)
        assert st.n == 1, f"{st.n} variates drawn for one measurement"
        if u > p + 1e-12: want = {1}
        elif u < p - 1e-12: want = {0}
        else: want = {0, 1}
        assert int(o) in want and o in (0, 1), f"variate {u}, probability {p} of outcome 0: outcome {o}"
        rest = np.tensordot(b1 if o else b, t, axes=(0, 0)).ravel()
        if np.linalg.norm(rest) > 1e-6:
            rest = rest / np.linalg.norm(rest); s = be.state
            if dm: assert np.allclose(s.rho, np.outer(rest, rest.conj()), atol=1e-6), "state after the measurement"
            else: assert M.phase_equal(s.flatten(), rest, 1e-6), "state after the measurement"
        assert list(be.node_index) == [x for x in nodes if x != nodes[k]], "node index"
    for p, u, want in ((0.0, 0.0, 1), (-1e-17, 0.0, 1), (1.0, 1 - 2 ** -53, 0), (1 + 1e-16, 1 - 2 ** -53, 0)):
        o = RandomBranchSelector().measure(0, lambda: p, Stub([u])); assert o == want, f"probability {p}, variate {u}: outcome {o}"

def consume(name, r, g):
    """Something random, with the generator g; returns a comparable value."""
    RO = random_objects; kw = dict(rng=g)
    def circ(c): return [(i.kind, tuple(sorted((k, str(v)) for k, v in vars(i).items()))) for i in c.instruction]
    if name == "herm": return RO.rand_herm(3, **kw)
    if name == "unit": return RO.rand_unit(r.choice([1, 2, 4]), **kw)
    if name == "dm": return getattr(RO.rand_dm(4, rank=r.choice([None, 2]), **kw), "rho", None)
    if name == "gauss": return RO.rand_gauss_cpx_mat(3, **kw)
    if name == "channel": return np.array([k.operator * k.coef for k in RO.rand_channel_kraus(2, rank=r.choice([None, 2]), **kw)])
    if name == "pauli": return np.array([k.operator * k.coef for k in RO.rand_pauli_channel_kraus(2, rank=r.choice([None, 3]), **kw)])
    if name == "gate": return circ(RO.rand_gate(3, 2, [(0, 1), (1, 2)], use_rzz=r.random() < .5, **kw))
    if name == "circuit": return circ(RO.rand_circuit(3, 2, use_ccx=r.random() < .5, use_rzz=True, **kw))
    if name == "vector": return RO.rand_state_vector(2, **kw)
    raise AssertionError(name)
OBJ = ["herm", "unit", "dm", "gauss", "channel", "pauli", "gate", "circuit", "vector"]

def simulate(seed, kind, gseed):
    r = random.Random(seed); g = np.random.default_rng(gseed)
    if kind in OBJ: return consume(kind, r, g), None
    if kind == "measured circuit":
        c = G.circuit(r, 3, 6, measure=.4); res = c.simulate(rng=g)
        return res.classical_measures, res.state
    if kind == "tensornetwork":                # no state is returned: only the outcomes are compared
        p = G.pattern(r, 3 + r.randrange(5), live=5, states=False); mm = DefaultMeasureMethod()
        try: be = TensorNetworkBackend(p, graph_prep="sequential", branch_selector=r.choice([None, RandomBranchSelector(), RandomBranchSelector(pr_calc=False), FixedBranchSelector({}, RandomBranchSelector())]))
        except NotImplementedError: return {}, None
        try: p.simulate(be, measure_method=mm, rng=g)
        except NotImplementedError: return {}, None       # nodes prepared in another state
        return dict(mm.results), None
    p = G.pattern(r, 3 + r.randrange(5), live=5)
    if kind == "noise":                        # every noise model receives the generator of the run
        seen = []
        class Watch(DepolarisingNoiseModel):
            def input_nodes(self, nodes, rng=None, *, stacklevel=1): seen.append(rng); return super().input_nodes(nodes, rng=rng, stacklevel=stacklevel)
            def command(self, cmd, rng=None, *, stacklevel=1): seen.append(rng); return super().command(cmd, rng=rng, stacklevel=stacklevel)
            def confuse_result(self, cmd, result, rng=None, *, stacklevel=1): seen.append(rng); return super().confuse_result(cmd, result, rng=rng, stacklevel=stacklevel)
        for nm in (Watch(measure_error_prob=.5), ComposeNoiseModel([DepolarisingNoiseModel(), Watch(measure_error_prob=.5)])):
            p.simulate("densitymatrix", noise_model=nm, rng=g)
            assert all(x is g for x in seen), f"a noise model is not given the generator of the run ({type(nm).__name__})"
    if kind == "standard": p = p.to_standardized() if hasattr(p, "to_standardized") else p
    mm = DefaultMeasureMethod(); kw = {}; be = r.choice(["statevector", "densitymatrix"]) if kind not in ("fixed", "even") else "statevector"    # an imposed impossible branch leaves no density matrix
    if kind == "fixed":
        ms = psim.measured(p); kw["branch_selector"] = FixedBranchSelector({x: r.randrange(2) for x in ms if r.random() < .5}, RandomBranchSelector(pr_calc=r.random() < .7))
    if kind == "even": kw["branch_selector"] = RandomBranchSelector(pr_calc=False)
    if kind == "noise":
        be = "densitymatrix"; nm = DepolarisingNoiseModel(measure_error_prob=.5, x_error_prob=.1)
        kw["noise_model"] = r.choice([nm, ComposeNoiseModel([nm, AmplitudeDampingNoiseModel(measure_error_prob=.3, entanglement_error_prob=.2)])])
    try: st = p.simulate(be, measure_method=mm, rng=g, **kw)
    except RuntimeError as e:                  # a branch of probability zero was imposed
        if "0-norm" not in str(e) or kind not in ("fixed", "even"): raise
        st = None
    return dict(mm.results), st

@P.bounded("reproducibility", ["graphix/rng.py:ensure_rng", "graphix/pattern.py:Pattern.simulate", "graphix/simulator.py:PatternSimulator.run", "graphix/transpiler.py:Circuit.simulate", "graphix/random_objects.py", "graphix/sim/tensornet.py:TensorNetworkBackend.measure",
           "graphix/noise_models/depolarising.py:DepolarisingNoiseModel.confuse_result"],
           lambda rng, tier: G.seeds(rng, lambda r: r.choice(OBJ + ["plain", "plain", "standard"] + ["fixed"] * 3 + ["tensornetwork"] * 2 + ["even"] * 2 + ["noise"] * 3 + ["measured circuit"] * 2), lambda r: r.randrange(2 ** 32)),
           "random patterns of up to 7 nodes, circuits, noise models and every function of random_objects, each run twice with equal seeds", quick=10, thorough=90)
def reproducibility(case):
    seed, kind, gseed = case
    def arr(s): return None if s is None else np.asarray(getattr(s, "rho", None) if hasattr(s, "rho") else s.flatten())
    np.random.seed(seed % 2 ** 32); random.seed(seed); before = np.random.get_state()[1].tobytes(), random.getstate()
    with warnings.catch_warnings():
        warnings.filterwarnings("error", message=".*random-number generator.*")
        a, sa = simulate(seed, kind, gseed)
        assert (np.random.get_state()[1].tobytes(), random.getstate()) == before, f"{kind}: a global generator is used"
        np.random.seed((seed + 1) % 2 ** 32); random.seed(seed + 1)
        b, sb = simulate(seed, kind, gseed)
    if isinstance(a, np.ndarray): assert np.array_equal(a, b), f"{kind}: two runs with equal seeds differ"
    else: assert a == b, f"{kind}: two runs with equal seeds differ: {a} and {b}"
    if sa is not None: assert np.allclose(arr(sa), arr(sb), atol=1e-12, equal_nan=True), f"{kind}: states differ"
    if kind in OBJ: return
    if isinstance(a, dict):
        assert all(x in (0, 1) for x in a.values())

@P.bounded("prescribed runs", [BS + "FixedBranchSelector.measure", BS + "ConstBranchSelector.measure"],
           lambda rng, tier: G.seeds(rng), "random patterns of up to 7 nodes; partial prescriptions with every kind of fallback", quick=5, thorough=40)
def prescribed_runs(case):
    (seed,) = case; r = random.Random(seed); p = G.pattern(r, 3 + r.randrange(5), live=5, meas=lambda r: G.bloch(r, pauli=0))
    ms = psim.measured(p)
    if not ms: return "skip"
    fixed = {x: r.randrange(2) for x in ms if r.random() < .6}; rest = [x for x in ms if x not in fixed]
    cb = r.randrange(2); asked = []
    class Rec2(BranchSelector):
        def measure(self, qubit, f, rng=None, *, stacklevel=1): asked.append((qubit, rng)); return cb
    g = np.random.default_rng(seed % 1000); state = g.bit_generator.state
    for d, ok in ((ConstBranchSelector(cb), True), (Rec2(), True), (None, not rest)):
        mm = DefaultMeasureMethod()
        try: p.simulate(branch_selector=FixedBranchSelector(fixed, d), measure_method=mm, rng=g)
        except ValueError: assert not ok, "refused"; continue
        except RuntimeError as e:              # a branch of probability zero was imposed
            if "0-norm" in str(e): return "skip"
            raise
        assert ok, f"a measurement without a prescription is accepted: {rest}"
        want = {x: fixed.get(x, cb) for x in ms}
        assert dict(mm.results) == want, f"prescribed {want}, recorded {dict(mm.results)}"
    assert [q for q, _ in asked] == rest and all(x is g for _, x in asked), f"asked {asked}, not prescribed {rest}"
    assert g.bit_generator.state == state, "a prescribed run draws random numbers"
    mm = DefaultMeasureMethod()
    try: p.simulate(branch_selector=ConstBranchSelector(cb), measure_method=mm)
    except RuntimeError as e:
        if "0-norm" in str(e): return
        raise
    assert dict(mm.results) == dict.fromkeys(ms, cb)
