from __future__ import annotations
import itertools, math, random, types
import numpy as np
from gv import boot, gen as G, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.extract import rebind
from graphix import command
from graphix.branch_selector import FixedBranchSelector
from graphix.clifford import Clifford
from graphix.command import CommandKind as K, N, E, M as Meas, X, Z, C, S, T
from graphix.measurements import Measurement
from graphix.noise_models import (AmplitudeDampingNoise, AmplitudeDampingNoiseModel, ApplyNoise, ComposeNoiseModel, DepolarisingNoise, DepolarisingNoiseModel,
    TwoQubitAmplitudeDampingNoise, TwoQubitDepolarisingNoise)
from graphix.noise_models.noise_model import NoiseModel, NoiselessNoiseModel, Noise
from graphix.simulator import PatternSimulator, DefaultMeasureMethod
from graphix.channels import KrausChannel, KrausData

NM = "graphix/noise_models/"
P = Prop("C20", "proof",
    "command and input_nodes of the built-in models are executed on each command kind with arbitrary (opaque) nodes, domains, measurements and probabilities: the code can only "
    "move these around, so the outcome holds for all of them; transpile and ComposeNoiseModel are executed on arbitrary sub-models (recording stand-ins) by induction over the "
    "sequences. Whole noisy simulations are the bounded part.",
    ["opaque arguments: the noise models inspect neither nodes, nor domains, nor measurements (an inspection raises and makes the obligation undecided)",
     "noise elements mean the documented channel (C19), state operations through C18, the command loop through C04"],
    ["numpy random generators"])

class Tok:
    """An opaque value: may only be passed around."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"<{self.n}>"
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __bool__ = __len__ = __iter__ = __lt__ = __add__ = __mul__ = __float__ = __int__ = __index__ = __contains__ = _no
    __hash__ = object.__hash__

MODELS = [(DepolarisingNoiseModel, DepolarisingNoise, TwoQubitDepolarisingNoise), (AmplitudeDampingNoiseModel, AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise)]
FIELDS = ["prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob"]
PROBS = dict(zip(FIELDS, [.11, .12, .13, .14, .15, .16]))

def is_noise(c, cls, prob, nodes, domain=None):
    return isinstance(c, ApplyNoise) and type(c.noise) is cls and c.noise.prob == prob and len(c.nodes) == len(nodes) and all(a is b for a, b in zip(c.nodes, nodes)) and c.domain is domain

@P.proof("documented insertions", [NM + f"{f}.py:{c}.{m}" for f, c in (("depolarising", "DepolarisingNoiseModel"), ("amplitude_damping", "AmplitudeDampingNoiseModel"))
                                   for m in ("__init__", "command", "input_nodes", "confuse_result")], "opaque arguments per command kind")
def insertions(ob):
    for cls, one, two in MODELS:
        for perm in range(2):
            probs = PROBS if not perm else dict(zip(FIELDS, reversed(PROBS.values())))
            m = cls(**probs); pos = cls(*probs.values()); nm = f"{cls.__name__}{perm}"
            ob.check(f"{nm}: parameters in the documented order", all(getattr(m, f) == getattr(pos, f) == probs[f] for f in FIELDS))
            ob.check(f"{nm}: no noise by default", all(getattr(cls(), f) == 0 for f in FIELDS))
            n, u, v, d, d2 = Tok("n"), Tok("u"), Tok("v"), Tok("domain"), Tok("other domain")
            g = Tok("generator")
            c = N(n, Tok("state")); r = m.command(c, rng=g)
            ob.check(f"{nm}: N is followed by the preparation noise on its node", len(r) == 2 and r[0] is c and is_noise(r[1], one, probs["prepare_error_prob"], [n]))
            c = E((u, v)); r = m.command(c, rng=g)
            ob.check(f"{nm}: E is followed by the two-qubit noise on its two nodes", len(r) == 2 and r[0] is c and is_noise(r[1], two, probs["entanglement_error_prob"], [u, v]))
            c = Meas(n, Tok("measurement"), d, d2); r = m.command(c, rng=g)
            ob.check(f"{nm}: M is preceded by the measurement noise on its node", len(r) == 2 and r[1] is c and is_noise(r[0], one, probs["measure_channel_prob"], [n]))
            for k, p in ((X, "x_error_prob"), (Z, "z_error_prob")):
                c = k(n, d); r = m.command(c, rng=g)
                ob.check(f"{nm}: {k.__name__} is followed by noise under the condition of the correction", len(r) == 2 and r[0] is c and is_noise(r[1], one, probs[p], [n], d))
            for c in (C(n, Tok("clifford")), T(), ApplyNoise(Tok("noise"), [u, v], d), ApplyNoise(Tok("noise"), [u])):
                r = m.command(c, rng=g)
                ob.check(f"{nm}: {c.kind.name} {getattr(c, 'domain', '')} is left alone", len(r) == 1 and r[0] is c)
            try: m.command(S(n, d), rng=g)
            except ValueError: ok = True
            else: ok = False
            ob.check(f"{nm}: signals are refused", ok)
            class Nodes:                     # an arbitrary iterable, iterated once, element by element
                def __init__(self, xs): self.xs = xs; self.k = 0
                def __iter__(self):
                    self.k += 1
                    return iter(self.xs)
            for xs in ([], [u], [u, v, n]):
                r = m.input_nodes(Nodes(xs), rng=g)
                ob.check(f"{nm}: {len(xs)} input nodes receive the preparation noise each, in order", len(r) == len(xs) and all(is_noise(a, one, probs["prepare_error_prob"], [b]) for a, b in zip(r, xs)))
            # readout: for every number drawn; the number is compared with the probability, the result toggled
            class Draw:
                """An arbitrary number: only the comparison with the probability is known."""
                def __init__(self, less, w): self.less, self.w = less, w
                def __lt__(self, o):
                    if o != self.w: raise Unfit("compared with something else than the readout probability")
                    return self.less
                def __le__(self, o): return self.__lt__(o)
                def __gt__(self, o): return not self.__lt__(o)
                def __ge__(self, o): return not self.__lt__(o)
                def __float__(self): raise Unfit("inspection of a random number")
                __add__ = __sub__ = __mul__ = __rsub__ = __radd__ = __rmul__ = __float__
            for less, res in itertools.product((False, True), (0, 1)):
                class Gen:
                    n = 0
                    def uniform(self, *a, **k):
                        if a or k: raise Unfit("not a draw from [0, 1)")
                        self.n += 1
                        return Draw(less, probs["measure_error_prob"])
                    random = uniform
                gg = Gen(); f = rebind(cls.confuse_result, ensure_rng=lambda rng=None, **k: rng if rng is gg else (_ for _ in ()).throw(Unfit("other generator")))
                r = f(m, Tok("command"), res, rng=gg)
                ob.check(f"{nm}: outcome {res} is {'flipped' if less else 'kept'} when the number drawn is {'below' if less else 'not below'} the readout probability; one draw", r == res ^ less and gg.n == 1)

@P.proof("sequences and composition", [NM + "noise_model.py:" + f for f in ("NoiseModel.transpile", "ComposeNoiseModel.command", "ComposeNoiseModel.input_nodes", "ComposeNoiseModel.confuse_result",
         "NoiselessNoiseModel.command", "NoiselessNoiseModel.input_nodes", "NoiselessNoiseModel.confuse_result")], "recording stand-ins, induction over the sequence")
def sequences(ob):
    gtok = Tok("generator")
    class Mod(NoiseModel):
        """An arbitrary model: fresh opaque commands around every command, the generator is recorded."""
        def __init__(self, name, pre, post): self.name, self.pre, self.post = name, pre, post
        def command(self, cmd, rng=None, *, stacklevel=1):
            if rng is not gtok: raise Unfit("the generator is not forwarded")
            return [(self.name, "pre", i, cmd) for i in range(self.pre)] + [cmd] + [(self.name, "post", i, cmd) for i in range(self.post)]
        def input_nodes(self, nodes, rng=None, *, stacklevel=1):
            if rng is not gtok: raise Unfit("the generator is not forwarded")
            return [(self.name, "in", n) for n in nodes]
        def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
            if rng is not gtok: raise Unfit("the generator is not forwarded")
            return (self.name, cmd, result)
    for pre, post in itertools.product(range(3), repeat=2):
        m = Mod("a", pre, post)
        for k in range(4):
            cs = [f"c{i}" for i in range(k)]
            ob.check(f"transpile concatenates what the model gives for each command ({k} commands, {pre} before, {post} after)",
                     list(m.transpile(iter(cs), rng=gtok)) == [x for c in cs for x in m.command(c, rng=gtok)])
    for sizes in [(), ((1, 0),), ((0, 1), (1, 1)), ((2, 0), (0, 0), (1, 2))]:
        ms = [Mod(f"m{i}", a, b) for i, (a, b) in enumerate(sizes)]
        comp = ComposeNoiseModel(ms)
        want = ["cmd"]
        for m in ms: want = [y for x in want for y in m.command(x, rng=gtok)]
        ob.check(f"composition of {len(ms)} models transpiles through each in turn", list(comp.command("cmd", rng=gtok)) == want)
        for nodes in ([], ["u"], ["u", "v"]):
            ob.check(f"composition of {len(ms)} models: {len(nodes)} input nodes receive the noise of every model (list)", list(comp.input_nodes(nodes, rng=gtok)) == [(m.name, "in", n) for m in ms for n in nodes])
            ob.check(f"composition of {len(ms)} models: {len(nodes)} input nodes receive the noise of every model (iterator)", list(comp.input_nodes(iter(nodes), rng=gtok)) == [(m.name, "in", n) for m in ms for n in nodes])
        r = "result"
        for m in ms: r = (m.name, "cmd", r)
        ob.check(f"composition of {len(ms)} models: readout confused by each in turn", comp.confuse_result("cmd", "result", rng=gtok) == r)
    nl = NoiselessNoiseModel(); c = Tok("command")
    ob.check("the noiseless model adds nothing", nl.command(c, rng=gtok) == [c] and nl.input_nodes(["u"], rng=gtok) == [] and nl.confuse_result(c, 1, rng=gtok) == 1 and nl.confuse_result(c, 0) == 0)

# -- whole simulations against an independent density-matrix interpreter -----------------------------------------------------
def kraus(n):
    if isinstance(n, Custom): return n.mats
    p = n.prob
    if isinstance(n, DepolarisingNoise): return [math.sqrt(1 - p) * M.I2] + [math.sqrt(p / 3) * m for m in (M.X, M.Y, M.Z)]
    if isinstance(n, TwoQubitDepolarisingNoise):
        ps = [np.kron(a, b) for a in (M.I2, M.X, M.Y, M.Z) for b in (M.I2, M.X, M.Y, M.Z)]
        return [math.sqrt(1 - p) * ps[0]] + [math.sqrt(p / 15) * m for m in ps[1:]]
    k = [np.array([[1, 0], [0, math.sqrt(1 - p)]]), np.array([[0, math.sqrt(p)], [0, 0]])]
    if isinstance(n, AmplitudeDampingNoise): return k
    if isinstance(n, TwoQubitAmplitudeDampingNoise): return [np.kron(a, b) for a in k for b in k]


class Custom(Noise):
    """A random channel on k qubits."""
    def __init__(self, mats): self.mats = mats
    @property
    def nqubits(self): return self.mats[0].shape[0].bit_length() - 1
    def to_krauschannel(self): return KrausChannel(KrausData(1, m) for m in self.mats)

def random_noise(nr, k, m=2):
    d = 2 ** k; q, _ = np.linalg.qr(nr.normal(size=(d * m, d)) + 1j * nr.normal(size=(d * m, d)))
    return Custom([q[i * d:(i + 1) * d] for i in range(m)])

class CustomModel(NoiseModel):
    """Noise on chosen kinds, before or after, possibly under a condition; readout flipped for chosen nodes."""
    def __init__(self, spec, flips): self.spec, self.flips = spec, flips
    def input_nodes(self, nodes, rng=None, *, stacklevel=1): return [ApplyNoise(self.spec["in"], [n]) for n in nodes] if "in" in self.spec else []
    def command(self, cmd, rng=None, *, stacklevel=1):
        s = self.spec.get(cmd.kind)
        if s is None: return [cmd]
        noise, before, dom = s
        nodes = list(cmd.nodes) if cmd.kind == K.E else [cmd.node]
        d = {None: None, "own": set(cmd.domain) if cmd.kind in (K.X, K.Z) else set(cmd.s_domain) if cmd.kind == K.M else None, "empty": set()}[dom]
        a = ApplyNoise(noise, nodes, d)
        return [a, cmd] if before else [cmd, a]
    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1): return result ^ 1 if cmd.node in self.flips else result

class Density:
    def __init__(self, nodes, rho): self.nodes = list(nodes); self.t = rho.reshape((2,) * (2 * len(self.nodes)))
    def prep(self, n, vec):
        k = len(self.nodes); vec = np.asarray(vec)
        t = np.multiply.outer(np.outer(vec, vec.conj()), self.t)          # axes: a, a', rows, cols
        self.t = np.moveaxis(t, 1, k + 1); self.nodes.insert(0, n)
    def _one(self, m, nodes):
        k, n = len(nodes), len(self.nodes); ax = [self.nodes.index(v) for v in nodes]; m = np.asarray(m).reshape((2,) * (2 * k))
        t = np.moveaxis(np.tensordot(m, self.t, axes=(list(range(k, 2 * k)), ax)), list(range(k)), ax)
        ax = [a + n for a in ax]
        return np.moveaxis(np.tensordot(m.conj(), t, axes=(list(range(k, 2 * k)), ax)), list(range(k)), ax)
    def kraus(self, ms, nodes): self.t = sum(self._one(m, nodes) for m in ms)
    def project(self, n, b):
        i = self.nodes.index(n); k = len(self.nodes)
        t = np.tensordot(b, self.t, axes=(0, i)); self.t = np.tensordot(np.conj(b), t, axes=(0, i + k - 1)); self.nodes.pop(i)
    def out(self, nodes):
        assert sorted(nodes) == sorted(self.nodes); k = len(nodes); p = [self.nodes.index(n) for n in nodes]
        return np.transpose(self.t, p + [k + i for i in p]).reshape(2 ** k, 2 ** k)

def interpret(p, seq, outcomes, confuse, rho):
    """State of the branch (not normalised) and the record; `outcomes`: what the measured qubits give."""
    s = Density(p.input_nodes, rho); rec = {}
    par = lambda d: sum(rec[x] for x in d) % 2
    for c in seq:
        k = c.kind
        if k == K.N: s.prep(c.node, c.state.to_statevector_numpy())
        elif k == K.E: s.kraus([np.diag([1, 1, 1, -1])], list(c.nodes))
        elif k == K.M:
            b = psim.bra(c.measurement, outcomes[c.node])
            if par(c.t_domain): b = b * np.array([1, -1])
            if par(c.s_domain): b = b[::-1]
            s.project(c.node, b); rec[c.node] = confuse(c, outcomes[c.node])
        elif k in (K.X, K.Z):
            if par(c.domain): s.kraus([M.X if k == K.X else M.Z], [c.node])
        elif k == K.C: s.kraus([psim.clifford_matrix(c.clifford)], [c.node])
        elif k == K.ApplyNoise:
            if c.domain is None or par(c.domain): s.kraus(kraus(c.noise), c.nodes)
    return s, rec

def documented(desc, seq, first, inputs):
    """The noisy sequence of one model by its documentation; `first`: noise on inputs is prepended."""
    out = []
    kind, par = desc
    if kind in ("dep", "amp"):
        one, two = (DepolarisingNoise, TwoQubitDepolarisingNoise) if kind == "dep" else (AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise)
        for c in seq:
            k = c.kind
            if k == K.M: out.append(ApplyNoise(one(par["measure_channel_prob"]), [c.node]))
            out.append(c)
            if k == K.N: out.append(ApplyNoise(one(par["prepare_error_prob"]), [c.node]))
            if k == K.E: out.append(ApplyNoise(two(par["entanglement_error_prob"]), list(c.nodes)))
            if k in (K.X, K.Z): out.append(ApplyNoise(one(par["x_error_prob" if k == K.X else "z_error_prob"]), [c.node], c.domain))
        return [ApplyNoise(one(par["prepare_error_prob"]), [n]) for n in inputs], out
    if kind == "none": return [], list(seq)
    m = par
    return m.input_nodes(inputs), [y for x in seq for y in m.command(x)]

def build(desc):
    kind, par = desc
    return DepolarisingNoiseModel(**par) if kind == "dep" else AmplitudeDampingNoiseModel(**par) if kind == "amp" else NoiselessNoiseModel() if kind == "none" else par

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.randrange(1, 6))

def random_desc(r, nr, measured, certain=True):
    u = r.random()
    if u < .7:
        pr = lambda: r.choice([0, 1, r.random(), r.random()])
        d = {f: pr() for f in FIELDS}; d["measure_error_prob"] = r.choice([0, 0, 1]) if certain else r.random()
        return ("dep" if u < .35 else "amp", d)
    if u < .75: return ("none", None)
    spec = {}
    if r.random() < .5: spec["in"] = random_noise(nr, 1)
    for k in (K.N, K.E, K.M, K.X, K.Z, K.C):
        if r.random() < .5: spec[k] = (random_noise(nr, 2 if k == K.E else 1), k == K.M or r.random() < .3 and k != K.N, r.choice([None, None, "own", "own", "empty"]))
    return ("custom", CustomModel(spec, {v for v in measured if r.random() < .3}))

SIM = "graphix/simulator.py:"
@P.bounded("noisy simulations", [NM + "noise_model.py:ComposeNoiseModel.command", SIM + "PatternSimulator.run", SIM + "MeasureMethod.measure", "graphix/sim/density_matrix.py:DensityMatrix.apply_noise",
                                 "graphix/sim/base_backend.py:DenseStateBackend.apply_noise"], cases,
           "random patterns with 1..5 nodes, built-in, custom and composed models, prescribed branches, certain or impossible readout errors", quick=14, thorough=150)
def noisy(case):
    seed, n = case; r = random.Random(seed); nr = np.random.default_rng(seed % 2 ** 32)
    p = G.pattern(r, n, ticks=.1, live=4, corrections=.6); ms = psim.measured(p)
    descs = [random_desc(r, nr, ms) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 0]))]
    model = build(descs[0]) if len(descs) == 1 and r.random() < .8 else ComposeNoiseModel([build(d) for d in descs])
    prepared = r.random() < .15
    ins, seq = [], list(p)
    for d in descs:
        a, seq = documented(d, seq, True, p.input_nodes); ins += a
    got = model.transpile(p)
    assert [c for c in got if c.kind != K.ApplyNoise] == list(p), "the commands of the pattern are not kept in order"
    def confuse(c, o):
        for kind, par in descs:
            if kind in ("dep", "amp") and par["measure_error_prob"] == 1 or kind == "custom" and c.node in par.flips: o ^= 1
        return o
    k = len(p.input_nodes); v = M.rand_state(nr, k) if k else np.ones(1, complex)
    from graphix.sim.statevec import Statevector
    from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
    rho = np.outer(v, v.conj()); out = {x: r.randrange(2) for x in ms}
    s, rec = interpret(p, ([] if prepared else ins) + seq, out, confuse, rho); want = s.out(p.output_nodes); tr = np.trace(want).real
    if tr < 1e-7: return "skip"
    mm = DefaultMeasureMethod()
    before = repr(list(p))
    if prepared:
        be = DensityMatrixBackend(branch_selector=FixedBranchSelector(out)); 
        if k: be.add_nodes(p.input_nodes, Statevector(v))
        st = p.simulate(be, input_state=None, noise_model=model, measure_method=mm, rng=np.random.default_rng(3))
    else:
        kw = dict(input_state=r.choice([Statevector(v), DensityMatrix(Statevector(v))])) if k else {}
        st = p.simulate("densitymatrix", noise_model=model, branch_selector=FixedBranchSelector(out), measure_method=mm, rng=np.random.default_rng(3), **kw)
    assert repr(list(p)) == before, "the pattern is modified"
    assert mm.results == rec, f"recorded {mm.results}, expected {rec}"
    assert np.allclose(np.asarray(st.rho, dtype=complex), want / tr, atol=1e-6), f"state of branch {out} under {[d[0] for d in descs]}"

@P.bounded("readout errors", [NM + f"{f}.py:{c}.confuse_result" for f, c in (("depolarising", "DepolarisingNoiseModel"), ("amplitude_damping", "AmplitudeDampingNoiseModel"))] + [SIM + "MeasureMethod.measure"], cases,
           "4000 draws per case: the frequency of flips lies within 6 standard deviations of the probability; generators are consumed, not replaced", quick=4, thorough=30)
def readout(case):
    seed, _ = case; r = random.Random(seed)
    cls = r.choice(MODELS)[0]; q = r.choice([0, 1, .5, r.random(), r.random() * .05]); m = cls(measure_error_prob=q); nn = 4000
    cmd = Meas(0, Measurement.XY(.2)); res = r.randrange(2); g = np.random.default_rng(seed)
    models = [m] + ([] if r.random() < .6 else [r.choice(MODELS)[0](measure_error_prob=q)])
    mod = m if len(models) == 1 else ComposeNoiseModel(models)
    f = sum(mod.confuse_result(cmd, res, rng=g) != res for _ in range(nn)) / nn
    w = q if len(models) == 1 else 2 * q * (1 - q)
    assert abs(f - w) <= 6 * math.sqrt(w * (1 - w) / nn) + 1e-12, f"frequency {f} of flips, probability {w}"
    draw = lambda: [mod.confuse_result(cmd, res, rng=h) for h in [np.random.default_rng(seed + 1)] for _ in range(60)]
    assert draw() == draw(), "the outcomes do not follow from the given generator"
    # a pattern measured with a readout error records the flipped outcome, and the corrections follow the record
    from graphix.pattern import Pattern
    p = Pattern(input_nodes=[0]); p.extend([Meas(0, Measurement.Z)]); got = []
    g = np.random.default_rng(seed)
    for _ in range(60):
        mm = DefaultMeasureMethod()
        p.simulate("densitymatrix", noise_model=cls(measure_error_prob=q), input_state=G.STATES[2], measure_method=mm, branch_selector=FixedBranchSelector({0: 0}), rng=g)
        got.append(mm.results[0])
    assert abs(sum(got) / 60 - q) <= 6 * math.sqrt(q * (1 - q) / 60) + 1e-12, f"{sum(got)} flips of 60 with probability {q}"
