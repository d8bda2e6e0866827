from __future__ import annotations
import itertools, math, random, types
import numpy as np
from gv import boot, gen as G, mats as M  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.sym import Engine, SV, Atom, instrument
import graphix.channels as ch
import graphix.noise_models.depolarising as nd
import graphix.noise_models.amplitude_damping as na
from graphix.channels import KrausChannel, KrausData

F = "graphix/channels.py:"
P = Prop("C19", "proof",
    "The channel constructors are executed by the real code on a symbolic probability p = s^2 (1 - p = t^2); the resulting Choi matrix and the completeness "
    "relation are compared as polynomials in s and t with the documented map.  KrausChannel itself is executed on generic coefficients and operators: what it tests is the completeness "
    "relation, and it accepts exactly when the test succeeds.",
    ["numeric constants of the source (such as 1/3) are compared up to 1e-9"], ["numpy kron, matrix product"])

# -- polynomials in real atoms, modulo t^2 = 1 - (sum of the squares of the others) --------------------------------------------
def reals(x):
    r = {}
    for k, v in SV.of(x).d.items():
        k = tuple(sorted(Atom(a.name) for a in k)); r[k] = r.get(k, 0) + v
    return SV(r)

def reduce(x, sq):
    """Normal form: at most one factor t per monomial; sq = polynomial equal to t^2."""
    x = reals(x); t = Atom("t")
    while True:
        out = SV(); again = False
        for k, v in x.d.items():
            if sum(a == t for a in k) >= 2:
                rest = list(k); rest.remove(t); rest.remove(t)
                out = out + SV({tuple(rest): v}) * sq; again = True
            else: out = out + SV({k: v})
        x = out
        if not again: return x

def poly_equal(a, b, sq):
    return all(abs(v) < 1e-9 for v in reduce(SV.of(a) - SV.of(b), sq).d.values())

class World:
    """prob(s) = squares of atoms; sqrt of a multiple of one of them, or of 1 - sum, is known."""
    def __init__(self, names):
        self.at = {n: SV.atom(n) for n in names}; self.p = {n: Prob(self, a * a) for n, a in self.at.items()}
        self.sq = SV.of(1)
        for a in self.at.values(): self.sq = self.sq - a * a
        self.t = SV.atom("t")
    def sqrt(self, x):
        if isinstance(x, Prob): x = x.v
        if not isinstance(x, SV): return np.sqrt(x)
        if not x.d: return SV()
        if set(x.d) == {()}: return SV.of(np.sqrt(x.d[()]))
        for base, root in [(a * a, a) for a in self.at.values()] + [(self.sq, self.t)]:
            k = next(iter(base.d))
            c = x.d.get(k, 0) / base.d[k]
            if abs(complex(c).imag) < 1e-12 and complex(c).real > 0 and all(abs(v) < 1e-12 for v in (x - base * complex(c).real).d.values()):
                return root * math.sqrt(complex(c).real)
        raise Unfit(f"square root of {x}")
    def reduce(self, x): return reduce(x, self.sq)

class Prob:
    """A probability: a polynomial with values in [0, 1]."""
    __array_priority__ = 2000
    def __init__(self, w, v): self.w, self.v = w, v
    def _u(self, o): return o.v if isinstance(o, Prob) else o
    def __add__(self, o): return Prob(self.w, self.v + self._u(o))
    __radd__ = __add__
    def __sub__(self, o): return Prob(self.w, self.v - self._u(o))
    def __rsub__(self, o): return Prob(self.w, SV.of(self._u(o)) - self.v)
    def __truediv__(self, o): return Prob(self.w, self.v / o)
    def __mul__(self, o): return Prob(self.w, self.v * self._u(o)) if not isinstance(o, np.ndarray) else self.v * o
    __rmul__ = __mul__
    def __pow__(self, k): 
        r = SV.of(1)
        for _ in range(k): r = r * self.v
        return Prob(self.w, r)
    def __gt__(self, o):
        if isinstance(o, (int, float)) and o >= 1: return False
        raise Unfit("comparison of a probability")
    def __lt__(self, o):
        if isinstance(o, (int, float)) and o <= 0: return False
        raise Unfit("comparison of a probability")
    def __ge__(self, o): raise Unfit("comparison of a probability")
    __le__ = __ge__
    def __eq__(self, o): raise Unfit("comparison of a probability")
    __hash__ = None

class Np:
    def __init__(self, w): self.w = w
    def __getattr__(self, n): return getattr(np, n)
    def sqrt(self, x): return self.w.sqrt(x)
    def array(self, x, dtype=None, **k):
        a = np.array([[y.v if isinstance(y, Prob) else y for y in row] for row in x], dtype=np.object_)
        return a
    def kron(self, a, b): return np.kron(np.asarray(a, dtype=np.object_), np.asarray(b, dtype=np.object_)) if a.dtype == np.object_ or b.dtype == np.object_ else np.kron(a, b)

def record(coef, op): return (SV.of(coef.v if isinstance(coef, Prob) else coef), np.asarray(op))

def run(eng, fn, w, args, extra=None):
    def wrap(f): return instrument(eng, f, {}, ov)
    ov = {"np": Np(w), "KrausData": record, "KrausChannel": lambda data: list(data), "math": types.SimpleNamespace(sqrt=w.sqrt)}
    for n in ("_amplitude_damping_kraus",):
        if hasattr(ch, n): ov[n] = wrap(getattr(ch, n))
    for n, f in vars(ch).items():
        if n.endswith("_channel") and callable(f) and n != fn.__name__: ov.setdefault(n, f)
    ov.update(extra or {})
    return wrap(fn)(*args)

def choi(kraus, w, d):
    """entries [a, b, c, e] = coefficient of rho[b, e] in E(rho)[a, c]."""
    res = {}
    for c, k in kraus:
        if k.shape != (d, d): raise Unfit("shape of a Kraus operator")
        m = [[c * SV.of(complex(x) if not isinstance(x, SV) else x) for x in row] for row in k.tolist()]
        for a, b, e, f in itertools.product(range(d), repeat=4):
            if m[a][b].d and m[e][f].d: res[a, b, e, f] = res.get((a, b, e, f), SV()) + m[a][b] * m[e][f].conjugate()
    return {k: w.reduce(v) for k, v in res.items()}

def complete(kraus, w, d):
    for b, f in itertools.product(range(d), repeat=2):
        s = SV()
        for c, k in kraus:
            m = [[c * SV.of(complex(x) if not isinstance(x, SV) else x) for x in row] for row in k.tolist()]
            for a in range(d):
                s = s + m[a][b].conjugate() * m[a][f]
        if not poly_equal(s, 1 if b == f else 0, w.sq): return False
    return True

PA = [M.I2, M.X, M.Y, M.Z]
def pauli_mix(weights):
    """weights: list of (SV, matrix), the Kraus form sum_i w_i P_i rho P_i^dagger given by its weights."""
    def entries(w, d):
        res = {}
        for x, m in weights(w):
            for a, b, e, f in itertools.product(range(d), repeat=4):
                v = m[a, b] * np.conj(m[e, f])
                if v: res[a, b, e, f] = res.get((a, b, e, f), SV()) + x * complex(v)
        return {k: w.reduce(v) for k, v in res.items()}
    return entries

def damping(n):
    def entries(w, d):
        k = [[[SV.of(1), SV()], [SV(), w.t]], [[SV(), w.at["s"]], [SV(), SV()]]]
        ks = k
        if n == 2: ks = [[[x[i >> 1][j >> 1] * y[i & 1][j & 1] for j in range(4)] for i in range(4)] for x in k for y in k]
        res = {}
        for m in ks:
            for a, b, e, f in itertools.product(range(d), repeat=4): res[a, b, e, f] = res.get((a, b, e, f), SV()) + m[a][b] * m[e][f]
        return {k: w.reduce(v) for k, v in res.items()}
    return entries

P2 = [np.kron(a, b) for a in PA for b in PA]
dep = lambda w: [(w.t * w.t, PA[0])] + [(w.p["s"].v / 3, m) for m in PA[1:]]
dep2 = lambda w: [(w.t * w.t, P2[0])] + [(w.p["s"].v / 15, m) for m in P2[1:]]
tens = lambda w: [(x * y, np.kron(a, b)) for x, a in dep(w) for y, b in dep(w)]
deph = lambda w: [(w.t * w.t, M.I2), (w.p["s"].v, M.Z)]
pau = lambda w: [(w.t * w.t, M.I2), (w.p["x"].v, M.X), (w.p["y"].v, M.Y), (w.p["z"].v, M.Z)]

SPECS = [("dephasing_channel", ["s"], 2, pauli_mix(deph)), ("depolarising_channel", ["s"], 2, pauli_mix(dep)), ("pauli_channel", ["x", "y", "z"], 2, pauli_mix(pau)),
         ("two_qubit_depolarising_channel", ["s"], 4, pauli_mix(dep2)), ("two_qubit_depolarising_tensor_channel", ["s"], 4, pauli_mix(tens)),
         ("amplitude_damping_channel", ["s"], 2, damping(1)), ("two_qubit_amplitude_damping_channel", ["s"], 4, damping(2))]

def numeric_entries(spec, names, d, vals):
    """The documented map at numeric probabilities."""
    w = World(names); env = {n: math.sqrt(v) for n, v in zip(names, vals)}; env["t"] = math.sqrt(max(0, 1 - sum(vals)))
    def ev(x): return sum(v * math.prod(env[a.name] for a in k) for k, v in x.d.items())
    res = np.zeros((d,) * 4, dtype=complex)
    for k, v in spec(w, d).items(): res[k] = ev(v)
    return res

def real_entries(channel, d):
    res = np.zeros((d,) * 4, dtype=complex)
    for k in channel:
        m = k.coef * k.operator; res += np.einsum("ab,ef->abef", m, m.conj())
    return res

def numeric_ok(fn, spec, names, d, vals):
    return np.allclose(real_entries(fn(*vals), d), numeric_entries(spec, names, d, vals), atol=1e-9)

def prove(ob, label, fn, names, d, spec, real, args=None, extra=None):
    eng = Engine(ob, label)
    w = World(names)
    kraus = run(eng, fn, w, args(w) if args else [w.p[n] for n in names], extra(w, eng) if extra else None)
    if not isinstance(kraus, list): raise Unfit("the constructor does not return a channel of recorded operators")
    got, want = choi(kraus, w, d), spec(w, d)
    ok = all(poly_equal(got.get(k, 0), want.get(k, 0), w.sq) for k in {*got, *want})
    rnd = lambda kw: [kw[n] ** 2 / max(1, sum(x ** 2 for x in kw.values())) for n in names]
    ob.exact(f"{label}: the map is the documented one for every probability", ok, names, lambda **kw: numeric_ok(real, spec, names, d, rnd(kw)), lo=0, hi=1)
    ob.exact(f"{label}: completeness for every probability", complete(kraus, w, d), names,
             lambda **kw: np.allclose(sum((k.coef * k.operator).conj().T @ (k.coef * k.operator) for k in real(*rnd(kw))), np.eye(d)), lo=0, hi=1)

@P.proof("built-in channels", [F + n for n, *_ in SPECS] + [F + "_amplitude_damping_kraus"], "exact algebra")
def builtin(ob):
    for name, names, d, spec in SPECS:
        fn = need(ch, name)
        prove(ob, name, fn, names, d, spec, fn)

NOISES = [(nd.DepolarisingNoise, "depolarising_channel", 1), (nd.TwoQubitDepolarisingNoise, "two_qubit_depolarising_channel", 3), (na.AmplitudeDampingNoise, "amplitude_damping_channel", 5), (na.TwoQubitAmplitudeDampingNoise, "two_qubit_amplitude_damping_channel", 6)]

@P.proof("noise elements", [f"{c.__module__.replace('.', '/')}.py:{c.__name__}.to_krauschannel" for c, *_ in NOISES], "exact algebra")
def noises(ob):
    for cls, name, i in NOISES:
        _, names, d, spec = SPECS[i]
        def extra(w, eng):
            return {n: (lambda *a, f=f: run(eng, f, w, a)) for n, f in vars(ch).items() if n.endswith("_channel") and callable(f)}
        prove(ob, cls.__name__ + ".to_krauschannel", cls.to_krauschannel, names, d, spec, lambda p, cls=cls: cls(p).to_krauschannel(), lambda w: [types.SimpleNamespace(prob=w.p["s"])], extra)
        ob.check(f"{cls.__name__}: number of qubits", cls(.5).nqubits == d.bit_length() - 1)

@P.proof("probability parameters", ["graphix/utils.py:Probability", "graphix/utils.py:BoundedFloat.validate", "graphix/utils.py:Validator.__set__", "graphix/utils.py:Validator.__get__"], "case analysis over the order of a real number with 0 and 1")
def parameters(ob):
    """A number enters the code only through comparisons with 0 and 1, so it is decided for all real numbers by its order with these two."""
    REGIONS = {"below 0": (-1, -1), "0": (0, -1), "between 0 and 1": (1, -1), "1": (1, 0), "above 1": (1, 1)}
    class Num:
        def __init__(self, r): self.r = r
        def sign(self, o):
            if o is self: return 0
            if isinstance(o, (int, float)) and o in (0, 1): return REGIONS[self.r][int(o)]
            raise Unfit(f"a probability is compared with {o!r}")
        def __lt__(self, o): return self.sign(o) < 0
        def __le__(self, o): return self.sign(o) <= 0
        def __gt__(self, o): return self.sign(o) > 0
        def __ge__(self, o): return self.sign(o) >= 0
        def __eq__(self, o): return self.sign(o) == 0
        def __ne__(self, o): return self.sign(o) != 0
        __hash__ = None
    real = {"below 0": -.25, "0": 0., "between 0 and 1": .5, "1": 1., "above 1": 1.25}
    for cls, *_ in NOISES:
        for r in REGIONS:
            good = r not in ("below 0", "above 1")
            def run(x, y, how):
                """construct or assign x; y is the value before"""
                if how == "construct":
                    try: n = cls(x)
                    except ValueError: return not good
                    return good and n.prob is x
                n, other = cls(y), cls(y)
                try: n.prob = x
                except ValueError: return not good and n.prob is y and other.prob is y
                return good and n.prob is x and other.prob is y
            for how in ("construct", "assign"):
                try: ok = run(Num(r), Num("0"), how)
                except Exception: ok = False      # noqa: BLE001
                if not ok and not run(real[r], .75, how): ob.check(f"{cls.__name__}, {how} a probability {r}: {'kept' if good else 'refused, the old value stays'}", False, dict(cls=cls.__name__, value=real[r], how=how))
                else: ob.structural(f"{cls.__name__}, {how} a probability {r}: {'kept' if good else 'refused, the old value stays'}", ok)

def cases(rng, tier): yield from G.seeds(rng)

@P.bounded("built-in channels, numerically", [F + n for n, *_ in SPECS] + ["graphix/utils.py:Probability"], cases, "random and boundary probabilities, action on random density matrices", quick=4, thorough=40)
def numeric(case):
    r = random.Random(case[0]); nr = np.random.default_rng(case[0])
    name, names, d, spec = r.choice(SPECS); fn = need(ch, name)
    vals = [r.choice([0.0, 1.0, r.random(), r.random() * 1e-6, 1 - r.random() * 1e-6, .75, .5])] if len(names) == 1 else list(nr.dirichlet(np.ones(4))[:3]) if r.random() < .7 else r.choice([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.], [.5, .5, 0]])
    c = fn(*vals)
    assert c.nqubit == d.bit_length() - 1 and all(k.nqubit == c.nqubit for k in c) and len(list(c)) == len(c) and c[0] is list(c)[0]
    assert np.allclose(real_entries(c, d), numeric_entries(spec, names, d, vals), atol=1e-9), f"{name}{tuple(vals)}"
    if name == "pauli_channel":
        bad = [x + r.choice([.2, .5]) for x in vals]
        if sum(bad) > 1 + 1e-9:
            try: fn(*bad)
            except ValueError: pass
            else: raise AssertionError(f"probabilities {bad} are accepted")
    for cls, nm, i in NOISES:
        if nm == name:
            assert np.allclose(real_entries(cls(vals[0]).to_krauschannel(), d), numeric_entries(spec, names, d, vals), atol=1e-9), f"{cls.__name__}({vals[0]})"
            n = cls(vals[0]); assert n.prob == vals[0]
            for bad in (-r.random() - 1e-9, 1 + r.random() + 1e-9):
                for f in (lambda: cls(bad), lambda: setattr(n, "prob", bad)):
                    try: f()
                    except ValueError: assert n.prob == vals[0]
                    else: raise AssertionError(f"probability {bad} is accepted")

@P.bounded("user-supplied Kraus operators", [F + "KrausChannel.__init__", F + "KrausChannel._nqubit", F + "KrausData.__init__", F + "_ilog2"], cases, "complete and perturbed lists of Kraus operators on up to 3 qubits", quick=4, thorough=40)
def user(case):
    r = random.Random(case[0]); nr = np.random.default_rng(case[0])
    k = r.choice([0, 1, 1, 2, 2, 3]); d = 2 ** k; m = r.randrange(1, min(4 ** k, 6) + 1)
    q, _ = np.linalg.qr(nr.normal(size=(d * m, d)) + 1j * nr.normal(size=(d * m, d)))
    ops = [q[i * d:(i + 1) * d] for i in range(m)]; cs = [complex(nr.normal(), nr.normal()) if r.random() < .7 else r.choice([1, 1j, -2, .5]) for _ in ops]
    mats = [o / c for o, c in zip(ops, cs)]; ok = True; u = r.randrange(10)
    if u == 0: i = r.randrange(m); mats[i] = mats[i] * 1.01 if np.linalg.norm(mats[i] * cs[i]) > 1e-2 else mats[i] + 1; ok = False
    elif u == 1: i = r.randrange(m); mats = mats[:i] + mats[i + 1:]; cs = cs[:i] + cs[i + 1:]; ok = False
    elif u == 2: mats.append(np.zeros((2 * d, 2 * d))); cs.append(1); ok = False
    elif u == 3:
        mats += [np.zeros((d, d))] * (4 ** k + 1 - m); cs += [1.0] * (4 ** k + 1 - m); ok = False
    elif u == 4: cs[0] = cs[0] * 1j; 
    elif u == 5 and k: i = r.randrange(m); mats[i] = mats[i].T.copy()
    elif u == 6 and k:                    # unit diagonal, but something off the diagonal
        w = nr.normal(size=(d, d)) + 1j * nr.normal(size=(d, d)); w /= np.linalg.norm(w, axis=0); mats = [x @ w for x in mats]; ok = False
    elif u == 7 and k:                    # right trace only
        w = np.diag(1 + .2 * nr.random(d)); w *= math.sqrt(d) / np.linalg.norm(w); mats = [x @ w for x in mats]; ok = False
    total = None
    if len({x.shape for x in mats}) == 1:
        total = sum((abs(c) ** 2 * x.conj().T @ x for c, x in zip(cs, mats)), np.zeros(mats[0].shape if mats else (1, 1)))
        if u == 5: ok = np.allclose(total, np.eye(d), atol=1e-6)
    keep = [np.array(x) for x in mats]
    try: c = KrausChannel(KrausData(a, b) for a, b in zip(cs, mats)); got = True
    except ValueError: got = False
    assert got == ok, f"{'accepted' if got else 'rejected'}: {k} qubits, {len(mats)} operators, variation {u}"
    if got:
        assert c.nqubit == k and len(c) == len(mats) and all(np.array_equal(x.operator, y) and x.coef == a for x, y, a in zip(c, mats, cs))
        mats[0][...] = 5; assert np.array_equal(c[0].operator, keep[0]), "the channel shares memory with the caller's operator"
    for bad in (np.ones((2, 3)), np.eye(3), np.ones(4), np.zeros((0, 0))):
        try: KrausData(1, bad)
        except ValueError: continue
        raise AssertionError(f"operator of shape {bad.shape} is accepted")

# -- construction ---------------------------------------------------------------------------------------------------------------
class Q:
    """Polynomial in generic complex entries and their conjugates (names ending in *)."""
    def __init__(self, t=None): self.t = {k: v for k, v in (t or {}).items() if v}
    @staticmethod
    def of(x):
        if isinstance(x, Q): return x
        if isinstance(x, (int, float, complex, np.number)): return Q({(): complex(x)})
        raise Unfit(f"number expected, got {x!r}")
    def __add__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        t = dict(self.t)
        for k, v in Q.of(o).t.items(): t[k] = t.get(k, 0) + v
        return Q(t)
    __radd__ = __add__
    def __neg__(self): return Q({k: -v for k, v in self.t.items()})
    def __sub__(self, o): return self + -Q.of(o)
    def __mul__(self, o):
        if isinstance(o, np.ndarray): return NotImplemented
        t = {}
        for a, x in self.t.items():
            for b, y in Q.of(o).t.items():
                k = tuple(sorted(a + b)); t[k] = t.get(k, 0) + x * y
        return Q(t)
    __rmul__ = __mul__
    def conjugate(self): return Q({tuple(sorted(n[:-1] if n.endswith("*") else n + "*" for n in k)): v.conjugate() if isinstance(v, complex) else v for k, v in self.t.items()})
    conj = conjugate
    def __eq__(self, o): return self.t == Q.of(o).t
    __hash__ = None
    def __deepcopy__(self, memo): return self

@P.proof("construction of a channel", [F + "KrausChannel.__init__", F + "KrausChannel._nqubit", F + "KrausData.__init__", F + "KrausData.nqubit", F + "_ilog2"], "exact polynomial identities (generic coefficients and operators)")
def construction(ob):
    import types
    from gv import extract as X
    import graphix.channels as ch
    ns = types.SimpleNamespace
    def gen(name, d): return np.array([[Q({(f"{name}{i}{j}",): 1}) for j in range(d)] for i in range(d)], dtype=object)
    class Chan(ch.KrausChannel):
        def __init__(self): pass
    for n in (1, 2):
        for count in range(1, 6):
            if n == 1 and count > 4: continue
            for verdict in (True, False):
                seen = []
                def allclose(a, b, *x, **k):
                    seen.append((np.asarray(a, dtype=object), np.asarray(b))); return verdict
                npx = ns(zeros_like=lambda a, dtype=None: np.full(np.shape(a), Q(), dtype=object), zeros=lambda s, dtype=None: np.full(s, Q(), dtype=object),
                         allclose=allclose, eye=np.eye, complex128=object, identity=np.identity)
                data = [ns(coef=Q({(f"c{k}",): 1}), operator=gen(f"k{k}_", 2 ** n), nqubit=n) for k in range(count)]
                me = Chan(); ok = True
                try: X.rebind(ch.KrausChannel.__init__, np=npx)(me, iter(data) if count % 2 else data)
                except ValueError: ok = False
                lab = f"{count} operators on {n} qubits"
                if len(seen) != 1: raise Unfit("normalisation test")
                want = [[sum((data[k].coef * data[k].coef.conjugate() * data[k].operator[r, i].conjugate() * data[k].operator[r, j] for k in range(count) for r in range(2 ** n)), Q()) for j in range(2 ** n)] for i in range(2 ** n)]
                pair = seen[0] if isinstance(seen[0][0].flat[0], Q) else seen[0][::-1]
                ob.structural(f"{lab}: the sum of |c|^2 K^dagger K is what is tested", all(Q.of(pair[0][i, j]) == want[i][j] for i in range(2 ** n) for j in range(2 ** n)))
                ob.structural(f"{lab}: against the identity", np.array_equal(np.asarray(pair[1], dtype=float), np.eye(2 ** n)))
                ob.structural(f"{lab}: accepted exactly when the test succeeds", ok == verdict)
                if ok: ob.structural(f"{lab}: the channel holds copies of them, in order", len(me) == count and me.nqubit == n and all(me[k] is not data[k] and me[k].coef == data[k].coef and (me[k].operator == data[k].operator).all() for k in range(count)))
    yes = ns(zeros_like=lambda a, dtype=None: np.full(np.shape(a), Q(), dtype=object), allclose=lambda *a, **k: True, eye=np.eye, complex128=object)
    one = lambda n: ns(coef=Q({("c",): 1}), operator=gen("k", 2 ** n), nqubit=n)
    for lab, data in (("no operator", []), ("operators on different numbers of qubits", [one(1), one(2)]), ("a last operator of another size", [one(2), one(2), one(1)]), ("too many operators", [one(1)] * 5), ("too many operators on no qubits", [one(0)] * 2)):
        try: X.rebind(ch.KrausChannel.__init__, np=yes)(Chan(), data); bad = False
        except ValueError: bad = True
        ob.structural(f"{lab}: refused", bad)
    for sq in (True, False):
        for qu in (True, False):
            op = np.array([[1, 2], [3, 4]]); d = ch.KrausData.__new__(ch.KrausData)
            try: X.rebind(ch.KrausData.__init__, lv=ns(is_square=lambda m: sq, is_qubitop=lambda m: qu))(d, 2j, op); ok = True
            except ValueError: ok = False
            ob.structural(f"an operator is kept exactly when it is a square qubit operator ({sq}, {qu})", ok == (sq and qu))
            if ok:
                op[0, 0] = 9; v = d.operator
                ob.structural("kept as a private, immutable copy", d.coef == 2j and v.dtype == np.complex128 and v[0, 0] == 1 and not v.flags.writeable and v.base is not op)
    for k in range(64): ob.structural(f"2**{k} amplitudes are {k} qubits", ch._ilog2(2 ** k) == k)
