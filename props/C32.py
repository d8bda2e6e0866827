from __future__ import annotations
import itertools, random, warnings
import numpy as np
from gv import boot, extract as X, gen as G, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit
import quimb.tensor as qtn
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector
from graphix.clifford import Clifford
from graphix.command import CommandKind as K
from graphix import command
from graphix.fundamentals import Plane
from graphix.measurements import BlochMeasurement, Measurement
from graphix.ops import Ops
from graphix.pattern import Pattern
from graphix.sim import tensornet as tnm
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.states import BasicStates

F = "graphix/sim/tensornet.py:"
P = Prop("C32", "proof",
    "Every operation of the network and of the backend is executed by the real code on a network with generic entries (one polynomial variable per entry "
    "of the state and of the operator), and the contraction of the result is compared, as polynomials, with the contract of the operation on the "
    "contraction before it; whole patterns are compared branch by branch with independent linear algebra.",
    ["quimb: a network denotes the contraction of its tensors over the indices they share; full_simplify preserves it, contract computes it, split factors a "
     "tensor, conj conjugates and renames inner indices on a clash (assumed contracts)",
     "an operation on named nodes does not depend on the number of other nodes of the network (the proofs carry one further node of each kind)",
     "numeric constants (1/sqrt 2, Clifford matrices) are floats and are compared to 1e-9"],
    ["quimb Tensor, TensorNetwork (tags, indices, containers)"])

# -- polynomials over generic complex numbers ---------------------------------------------------------------------
class Po:
    def __init__(self, d): self.d = d
    @staticmethod
    def of(x): return x if isinstance(x, Po) else Po({(): complex(x)})
    def __add__(self, o):
        if not isinstance(o, (Po, int, float, complex, np.number)): return NotImplemented
        r = dict(self.d)
        for k, v in Po.of(o).d.items(): r[k] = r.get(k, 0) + v
        return Po(r)
    __radd__ = __add__
    def __mul__(self, o):
        if not isinstance(o, (Po, int, float, complex, np.number)): return NotImplemented
        r = {}; o = Po.of(o)
        for k, v in self.d.items():
            for l, w in o.d.items():
                if v and w: m = tuple(sorted(k + l)); r[m] = r.get(m, 0) + v * w
        return Po(r)
    __rmul__ = __mul__
    def __neg__(self): return self * -1
    def __sub__(self, o): return self + Po.of(o) * -1
    def __truediv__(self, o):
        if isinstance(o, Po): raise Unfit("division by an entry")
        return self * (1 / o)
    def conjugate(self): return Po({tuple(sorted((n, not c) for n, c in k)): np.conj(v) for k, v in self.d.items()})
    conj = conjugate
    def __abs__(self): return Abs(self)
    def __repr__(self): return repr({k: v for k, v in self.d.items() if abs(v) > 1e-12})
    def _no(self, *a): raise Unfit("an entry is inspected")
    __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = _no
    __hash__ = None
class Abs:
    def __init__(self, p, e=1.0): self.p, self.e = p, e
    def __pow__(self, e): return Abs(self.p, self.e * e)
MODE = [None]                    # None: generic entries; a numpy generator: random numbers (replay of a failed obligation)
def gen(name, *shape):
    if MODE[0] is not None: return MODE[0].normal(size=shape) + 1j * MODE[0].normal(size=shape)
    a = np.empty(shape, object)
    for i in np.ndindex(*shape): a[i] = Po({((name + str(i), False),): 1.0})
    return a
def eye(n): return np.eye(n).astype(object if MODE[0] is None else complex)
def ident(ob, label, go):
    """go(): an identity of polynomials in generic entries; refuted only by a replay on numbers, without any stand-in"""
    with Patch():
        try: ok = go()
        except Exception as e: ok, why = False, e
        if ok: return ob.check(label, True)
    for seed in range(5):
        MODE[0] = np.random.default_rng(seed)
        try: good, why = go(), None
        except Exception as e: good, why = False, f"{type(e).__name__}: {e}"      # noqa: BLE001
        finally: MODE[0] = None
        if not good: return ob.check(label, False, dict(seed=seed, error=why))
    return ob.structural(label, False)
def same(a, b):
    a, b = np.asarray(a, object), np.asarray(b, object)
    if a.shape != b.shape: return False
    return all(abs(v) < 1e-9 for x, y in zip(a.flat, b.flat) for v in (Po.of(x) - Po.of(y)).d.values())

# -- the assumed meaning of a network ------------------------------------------------------------------------------
def contract_all(ts, outs):
    ts = [(np.asarray(t.data, object), list(t.inds)) for t in ts]; outs = list(outs)
    n = {}
    for _, i in ts:
        if len(set(i)) != len(i): raise Unfit("an index twice on a tensor")
        for x in i: n[x] = n.get(x, 0) + 1
    if any(v > 2 for v in n.values()): raise Unfit("an index on three tensors")
    while len(ts) > 1:
        # the cheapest pair that shares an index
        best = min(((len(set(a[1]) ^ set(b[1])) - 4 * bool(set(a[1]) & set(b[1])), i, j) for (i, a), (j, b) in itertools.combinations(enumerate(ts), 2)))
        b, a = ts.pop(best[2]), ts.pop(best[1])
        sh = [x for x in a[1] if x in b[1] and x not in outs]
        ts.append((np.tensordot(a[0], b[0], axes=([a[1].index(x) for x in sh], [b[1].index(x) for x in sh])) if sh else np.multiply.outer(a[0], b[0]),
                   [x for x in a[1] if x not in sh] + [x for x in b[1] if x not in sh]))
    d, i = ts[0] if ts else (np.array(1.0, object), [])
    if sorted(i) != sorted(outs): return None
    return np.transpose(d, [i.index(x) for x in outs]) if outs else np.asarray(d, object)
def value(tn, nodes):
    """the array over the open legs of the nodes (None: the open legs are not these)"""
    try: outs = [tn._dangling[str(v)] for v in nodes]
    except KeyError: return None
    return contract_all(list(tn.tensor_map.values()), outs)

class Patch:
    """quimb's numeric routines by their contracts"""
    def __enter__(self):
        T, N = qtn.Tensor, qtn.TensorNetwork; self.old = (N.full_simplify, N.contract, T.split, N.__dict__.get("copy"))
        def contract(s, *a, output_inds=None, **k):
            if a or output_inds is None or len(output_inds): raise Unfit("contraction")
            v = contract_all(list(s.tensor_map.values()), [])
            if v is None: raise Unfit("open legs are left")
            return v[()] if isinstance(v[()], Po) else Po.of(v[()])
        def split(s, left_inds=None, bond_ind=None, **k):
            if s.data.dtype != object: return self.old[2](s, left_inds, bond_ind=bond_ind, **k)
            if bond_ind is None or left_inds is None: raise Unfit("split")
            left = list(left_inds); right = [i for i in s.inds if i not in left]; d = s.transpose(*left, *right).data
            n = int(np.prod([s.ind_size(i) for i in left]))
            return (qtn.Tensor(np.eye(n).astype(object).reshape([s.ind_size(i) for i in left] + [n]), [*left, bond_ind], s.tags),
                    qtn.Tensor(d.reshape([n] + [s.ind_size(i) for i in right]), [bond_ind, *right], s.tags))
        N.full_simplify = lambda s, *a, **k: s.copy(); N.contract = contract; T.split = split
        return self
    def __exit__(self, *a):
        T, N = qtn.Tensor, qtn.TensorNetwork; N.full_simplify, N.contract, T.split = self.old[:3]

def network(nodes, outputs=None, cls=MBQCTensorNet, selector=None):
    """An arbitrary state of the nodes: a generic tensor, and on each node an open tensor."""
    tn = cls(selector or ConstBranchSelector(0), default_output_nodes=list(nodes if outputs is None else outputs))
    inner = []
    for v in nodes:
        i, o = f"in{v}", f"out{v}"; inner.append(i)
        tn.add_tensor(qtn.Tensor(eye(2), [o, i], [str(v), "Open"])); tn._dangling[str(v)] = o
    T = gen("T", *(2,) * len(nodes)); tn.add_tensor(qtn.Tensor(T, inner, ["rest"]))
    return tn, T
def backend(tn, nodes, prep="sequential", selector=None):
    b = TensorNetworkBackend(Pattern(input_nodes=list(nodes)), graph_prep=prep, branch_selector=selector or ConstBranchSelector(0))
    object.__setattr__(b, "state", tn); object.__setattr__(b, "_isolated_nodes", set())
    return b
def apply(op, T, axes):
    """op on some axes"""
    k = len(axes); t = np.tensordot(np.asarray(op).reshape((2,) * 2 * k), T, axes=(range(k, 2 * k), axes))
    return np.moveaxis(t, range(k), axes)
NODES = [7, 2, 11]

@P.proof("preparation", [F + "MBQCTensorNet.add_qubit", F + "MBQCTensorNet.add_qubits", F + "TensorNetworkBackend.add_nodes"], "exact polynomial identities (generic entries)")
def preparation(ob):
    s = 2 ** -.5; names = {"plus": (s, s), "minus": (s, -s), "zero": (1, 0), "one": (0, 1), "iplus": (s, 1j * s), "iminus": (s, -1j * s)}
    def added(call, new, vecs, prep=False):
        def go():
            tn, T = network(NODES[:2]); x = backend(tn, []) if prep else tn; call(x)
            for v in vecs: T = np.multiply.outer(T, np.array(v))
            return same(value(tn, NODES[:2] + new), T)
        return go
    for name, v in names.items():
        ident(ob, f"add_qubit {name}: the product with that state", added(lambda x: x.add_qubit(5, name), [5], [v]))
        ident(ob, f"add_qubits {name}: each node in that state", added(lambda x: x.add_qubits([5, 0], name), [5, 0], [v, v]))
    ident(ob, "add_qubit: |+> by default", added(lambda x: x.add_qubit(5), [5], [(s, s)]))
    ident(ob, "add_qubits: |+> by default", added(lambda x: x.add_qubits([5, 0, 3]), [5, 0, 3], [(s, s)] * 3))
    r = random.Random(5)
    for k in range(6):
        v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(2)]); v /= np.linalg.norm(v)
        ident(ob, f"add_qubit: a vector ({k})", added(lambda x: x.add_qubit(5, v), [5], [v]))
        ident(ob, f"add_qubits: a vector for all nodes ({k})", added(lambda x: x.add_qubits([5, 3], v), [5, 3], [v, v]))
        ident(ob, f"add_qubits: one state per node ({k})", added(lambda x: x.add_qubits([5, 3], [v, "one"]), [5, 3], [v, (0, 1)]))
    ident(ob, "add_nodes: |+> on each node", added(lambda x: x.add_nodes([5, 3]), [5, 3], [(s, s)] * 2, True))
    for st in (BasicStates.ZERO, BasicStates.MINUS, BasicStates.PLUS_I):
        def go():
            tn, T = network(NODES[:2]); b = backend(tn, [])
            try: b.add_nodes([5], st)
            except NotImplementedError: return same(value(tn, NODES[:2]), T)
            return False
        ident(ob, "add_nodes: other states are rejected", go)

@P.proof("local operations", [F + "MBQCTensorNet.evolve_single", F + "TensorNetworkBackend.correct_byproduct", F + "TensorNetworkBackend.apply_clifford"], "exact polynomial identities (generic entries)")
def local(ob):
    for j, v in enumerate(NODES):
        def once():
            U = gen("U", 2, 2); tn, T = network(NODES); tn.evolve_single(v, U); return same(value(tn, NODES), apply(U, T, [j]))
        def twice():
            U, W = gen("U", 2, 2), gen("W", 2, 2); tn, T = network(NODES); tn.evolve_single(v, U); tn.evolve_single(v, W, "W"); return same(value(tn, NODES), apply(W, apply(U, T, [j]), [j]))
        ident(ob, f"evolve_single on node {j}: the operator acts on its leg", once)
        ident(ob, f"evolve_single on node {j}, twice: in order", twice)
        for cmd, op in ((command.X(v, {1}), M.X), (command.Z(v, {1}), M.Z)):
            def go():
                tn, T = network(NODES); backend(tn, NODES).correct_byproduct(cmd); return same(value(tn, NODES), apply(op, T, [j]))
            ident(ob, f"correct_byproduct {cmd.kind.name} on node {j}", go)
        for c in Clifford:
            def go():
                tn, T = network(NODES); backend(tn, NODES).apply_clifford(v, c); got, want = value(tn, NODES), apply(psim.clifford_matrix(c), T, [j])
                ph = phase(got, want); return ph is not None and same(got, want * ph)      # up to one phase
            ident(ob, f"apply_clifford {c.value} on node {j}", go)
def phase(a, b):
    if a is None: return None
    for x, y in zip(np.asarray(a, object).flat, np.asarray(b, object).flat):
        for k, v in Po.of(y).d.items():
            if abs(v) > 1e-9:
                p = Po.of(x).d.get(k, 0) / v
                return p if abs(abs(p) - 1) < 1e-9 else None
    return None

@P.proof("entanglement", [F + "TensorNetworkBackend.entangle_nodes", F + "_decompose_cz"], "exact polynomial identities (generic entries)")
def entanglement(ob):
    for a, b in itertools.permutations(range(3), 2):
        c = 3 - a - b
        def go(more):
            def f():
                tn, T = network(NODES); be = backend(tn, NODES)
                for u, w in [(a, b), *more]: be.entangle_nodes((NODES[u], NODES[w])); T = apply(M.CZ, T, [u, w])
                return same(value(tn, NODES), T)
            return f
        ident(ob, f"entangle_nodes ({a}, {b}): CZ on the two legs", go([]))
        ident(ob, f"entangle_nodes ({a}, {b}), ({b}, {c})", go([(b, c)]))
        ident(ob, f"entangle_nodes ({a}, {b}) twice", go([(a, b)]))

@P.proof("measurement", [F + "MBQCTensorNet.measure_single", F + "TensorNetworkBackend.measure"], "exact polynomial identities (generic entries)")
def measurement(ob):
    s = 2 ** -.5; basis = {"Z": ((1, 0), (0, 1)), "X": ((s, s), (s, -s)), "Y": ((s, 1j * s), (s, -1j * s))}
    rest = lambda j: NODES[:j] + NODES[j + 1:]
    bra = lambda v: np.array([Po.of(x).conjugate() for x in v], object)
    class Sel(BranchSelector):
        def __init__(self, out): self.out, self.asked = out, []
        def measure(self, qubit, f, rng=None, *, stacklevel=1): self.asked.append((qubit, f(), rng)); return self.out
    for j, v in enumerate(NODES):
        for name, vs in basis.items():
            for out, forced in itertools.product((0, 1), (True, False)):
                def go():
                    tn, T = network(NODES, selector=ConstBranchSelector(out if not forced else 1 - out))
                    got = tn.measure_single(v, basis=name, outcome=out if forced else None)
                    return got == out and same(value(tn, rest(j)), np.tensordot(np.conj(vs[out]), T, axes=(0, j)))
                ident(ob, f"measure_single {name} of node {j}, outcome {out}{' prescribed' if forced else ''}: its leg is contracted with the bra", go)
        def go():
            B = gen("B", 2); tn, T = network(NODES); tn.measure_single(v, basis=B); return same(value(tn, rest(j)), np.tensordot(bra(B), T, axes=(0, j)))
        ident(ob, f"measure_single of node {j} in a given basis state: contracted with its bra", go)
        for plane, out in itertools.product(Plane, (0, 1)):
            def go():
                V = gen("V", 2); seen = []; g = object()
                class Planar:
                    def __init__(self, p, a): seen.append((p, a))
                    def to_statevector_numpy(self): return V
                tn, T = network(NODES); sel = Sel(out); b = backend(tn, NODES, selector=sel)
                got = X.rebind(TensorNetworkBackend.measure, PlanarState=Planar)(b, v, BlochMeasurement(0.3, plane), rng=g)
                want = V if not out else {Plane.XY: M.Z, Plane.YZ: M.X, Plane.XZ: M.Y}[plane] @ V
                w = np.tensordot(bra(want), T, axes=(0, j)) * 2 ** .5; a = value(tn, rest(j)); ph = phase(a, w)
                return ph is not None and same(a, w * ph) and set(seen) == {(plane, 0.3)} and got == out and b.results == {v: out} and [(q, p) for q, p, _ in sel.asked] == [(v, 0.5)] and sel.asked[0][2] is g
            with Patch():
                try: ok = go()
                except Exception: ok = False      # noqa: BLE001
            ob.structural(f"measure node {j} in {plane.name}, outcome {out}: projection on the planar state of the measurement (or its orthogonal state), normalised for equally likely outcomes, with the outcome selected", ok)
        for meas in (Measurement.XY(.3), Measurement.YZ(1.2), Measurement.XZ(.7), Measurement.X, Measurement.Y, Measurement.Z, -Measurement.X, -Measurement.Y, -Measurement.Z):
            for out in (0, 1):
                def go():
                    sel = Sel(out); tn, T = network(NODES); b = backend(tn, NODES, selector=sel); got = b.measure(v, meas)
                    a = value(tn, rest(j)); w = np.tensordot(psim.bra(meas, out), T, axes=(0, j)) * 2 ** .5; ph = phase(a, w)
                    return ph is not None and same(a, w * ph) and got == out and b.results == {v: out} and [x[:2] for x in sel.asked] == [(v, .5)]
                ident(ob, f"measure node {j}, {meas!r}, outcome {out}: the bra of the outcome", go)

@P.proof("operators", [F + "MBQCTensorNet.evolve"], "exact polynomial identities (generic entries)")
def operators(ob):
    for k, dec in itertools.product((1, 2, 3), (False, True)):
        for qs in itertools.permutations(range(3), k):
            def go():
                U = gen("U", 2 ** k, 2 ** k); tn, T = network(NODES + [4], outputs=NODES)
                tn.evolve(U, list(qs), decompose=dec); return same(value(tn, NODES + [4]), apply(U, T, list(qs)))
            ident(ob, f"evolve {qs}, decompose={dec}: the operator acts on the legs in the order given", go)

class Normed(MBQCTensorNet):
    def norm(self, optimize=None): return 2.0
@P.proof("amplitudes and expectation values", [F + "MBQCTensorNet." + m for m in ("basis_coefficient", "expectation_value", "norm", "copy")], "exact polynomial identities (generic entries)")
def amplitudes(ob):
    conj = lambda x: Po.of(x).conjugate()
    for k in (1, 2, 3):
        nodes = NODES[:k]
        for perm in itertools.permutations(range(k)):
            sub = [nodes[i] for i in perm]
            for b in range(2 ** k):
                bits = [(b >> (k - 1 - i)) & 1 for i in range(k)]; idx = tuple(bits[perm.index(i)] for i in range(k))
                for form, given in itertools.product((b, format(b, f"0{k}b")), (False, True)):
                    kw = dict(indices=sub) if given else {}
                    def go(norm):
                        def f():
                            tn, T = network(nodes, outputs=nodes if given else sub, cls=Normed)
                            return same(tn.basis_coefficient(form, normalize=norm, **kw), T[idx] * (.5 if norm else 1)) and same(value(tn, nodes), T)
                        return f
                    ident(ob, f"basis_coefficient {form!r} of {perm} {'given' if given else ''}: the entry of the contraction", go(False))
                    ident(ob, f"basis_coefficient {form!r} of {perm} {'given' if given else ''}: divided by the norm", go(True))
        def go():
            tn, T = network(nodes); two = sum((x * conj(x) for x in T.flat), Po({}))
            if MODE[0] is not None: return same(tn.norm() ** 2, two)
            n = X.rebind(MBQCTensorNet.norm, float=lambda x: x)(tn)
            return isinstance(n, Abs) and n.e == .5 and same(n.p, two) and same(value(tn, nodes), T)
        ident(ob, f"norm of {k} nodes: the square root of <T|T>", go)
    for k in (1, 2):
        for qs in itertools.permutations(range(3), k):
            def go():
                U = gen("U", 2 ** k, 2 ** k); tn, T = network(NODES, cls=Normed); UT = apply(U, T, list(qs))
                return same(tn.expectation_value(U, list(qs)), sum((conj(x) * y for x, y in zip(T.flat, UT.flat)), Po({})) * .25) and same(value(tn, NODES), T)
            ident(ob, f"expectation_value on {qs}: <T|U T> / norm^2", go)
    for outs in ([11, 7, 2], [2, 11, 7]):
        def go():
            U = gen("U", 4, 4); tn, T = network(NODES, cls=Normed); UT = apply(U, T, [NODES.index(outs[2]), NODES.index(outs[0])])
            return same(tn.expectation_value(U, [2, 0], output_node_indices=outs), sum((conj(x) * y for x, y in zip(T.flat, UT.flat)), Po({})) * .25)
        ident(ob, f"expectation_value: output nodes {outs} given", go)
    for how in ({}, {"deep": True}):
        def go1():
            tn, T = network(NODES); c = tn.copy(**how)
            if not (same(value(c, NODES), T) and c.default_output_nodes == NODES): return False
            U = gen("U", 2, 2); c.evolve_single(NODES[1], U); return same(value(tn, NODES), T) and same(value(c, NODES), apply(U, T, [1]))
        def go2():
            tn, T = network(NODES); c = tn.copy(**how); tn.measure_single(NODES[0], outcome=0); tn.add_qubit(1); return same(value(c, NODES), T)
        ident(ob, f"copy {how}: the same value, and the original is unchanged by operations on the copy", go1)
        ident(ob, f"copy {how}: the copy is unchanged by operations on the original", go2)

@P.proof("preparation of a backend and readout", [F + "TensorNetworkBackend.__init__", F + "MBQCTensorNet.__init__", F + "MBQCTensorNet._require_default_output_nodes", F + "MBQCTensorNet.basis_amplitude", F + "MBQCTensorNet.to_statevector",
    F + "MBQCTensorNet.flatten", F + "outer_product"], "exhaustive over the cases of the control flow (stand-ins for the callees), exact polynomial identities")
def readout(ob):
    class Pat:
        def __init__(self, deg, std): self.deg, self.std, self.output_nodes = deg, std, ["outs"]
        def max_degree(self): return self.deg
        def is_standard(self): return self.std
        def isolated_nodes(self): return {"alone"}
        def to_opengraph(self):
            class OG:
                class graph: nodes, edges = ["nodes"], ["edges"]
            return OG
    auto = lambda d, std: "parallel" if std and d <= 5 else "sequential"
    for prep, deg, std, given, inp in itertools.product(("auto", "opt", "parallel", "sequential", "tree"), range(0, 9), (True, False), (True, False), (None, BasicStates.PLUS, BasicStates.ZERO, BasicStates.PLUS_I)):
        made = []; sel = ConstBranchSelector(0)
        def net(*a, **k):
            made.append((a, k)); return ("network", len(made))
        want = NotImplementedError if inp not in (None, BasicStates.PLUS) else ValueError if prep == "tree" or (prep in ("opt", "parallel") and not std) else {"opt": "parallel", "auto": auto(deg, std)}.get(prep, prep)
        def go():
            b = object.__new__(TensorNetworkBackend); p = Pat(deg, std)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try: X.rebind(TensorNetworkBackend.__init__, MBQCTensorNet=net, _decompose_cz=lambda: ["cz"])(b, p, prep, inp, sel if given else None)
                except (NotImplementedError, ValueError) as e: return type(e) is want
            if not isinstance(want, str) or len(made) != 1: return False
            a, k = made[0]
            if want == "parallel": good = k.get("graph_nodes") == ["nodes"] and k.get("graph_edges") == ["edges"]
            else: good = k.get("graph_nodes") is None and k.get("graph_edges") is None and b._decomposed_cz == ["cz"]
            s = k.get("branch_selector", a[0] if a else None)
            good &= s is b.branch_selector and (s is sel if given else type(s).__name__ == "RandomBranchSelector") and list(k.get("default_output_nodes")) == ["outs"]
            return good and b.state == ("network", 1) and b.pattern is p and b.graph_prep == want and b.input_state == BasicStates.PLUS and list(b.output_nodes) == ["outs"] and b.results == {} and b._isolated_nodes == {"alone"}
        try: ok = go()
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"backend: preparation {prep}, degree {deg}, {'standard' if std else 'not standard'}, branch selector {'given' if given else 'by default'}, input {inp}", ok)
    for nodes, edges, outs in itertools.product((None, ["n"]), (None, ["e"]), (None, ["o", "p"])):
        def go():
            class Net(MBQCTensorNet):
                def prepare_graph_state(self, *a): calls.append(a)
            calls = []; sel = ConstBranchSelector(0); tn = Net(sel, graph_nodes=nodes, graph_edges=edges, default_output_nodes=outs)
            if calls != ([(nodes, edges)] if nodes and edges else []) or tn._dangling or len(tn.tensor_map) or tn._MBQCTensorNet__branch_selector is not sel: return False
            if tn.default_output_nodes != outs or (outs is not None and tn.default_output_nodes is outs): return False
            try: return tn._require_default_output_nodes() == outs and outs is not None
            except ValueError: return outs is None
        try: ok = go()
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"network: nodes {nodes}, edges {edges}, output nodes {outs}: a graph state exactly if both are given, empty bookkeeping", ok)
    for own, given in ((a, b) for a in (None, ["a"]) for b in (None, ["b"])):
        def go():
            tn, T = network(NODES, outputs=own or ()); tn.default_output_nodes = own
            c = MBQCTensorNet(ConstBranchSelector(0), default_output_nodes=given, ts=tn)
            return c.default_output_nodes == (own if given is None else given) and c._dangling == tn._dangling and c._dangling is not tn._dangling and same(value(c, NODES), T)
        ident(ob, f"network from a network, output nodes {own}, {given} given: the same bookkeeping, not shared", go)
    class Read(MBQCTensorNet):
        def basis_coefficient(self, basis, normalize=True, indices=None):
            self.asked.append((basis, normalize, indices)); return self.entries[int(basis, 2) if isinstance(basis, str) else basis] * (.5 if normalize else 1)
    for k in range(0, 5):
        nodes = list(range(3, 3 + k)); g = np.random.default_rng(k); v = g.normal(size=2 ** k) + 1j * g.normal(size=2 ** k)
        def mk(outs):
            tn = Read(ConstBranchSelector(0), default_output_nodes=outs); tn.asked, tn.entries = [], v; return tn
        def state(outs, how):
            def go():
                tn = mk(outs); r = tn.flatten() if how == "flat" else tn.to_statevector(**({"indices": nodes} if how == "given" else {}))
                return np.allclose(r, v / np.linalg.norm(v)) and r.shape == v.shape and all(x[2] == (nodes if how == "given" else None) for x in tn.asked) and {x[0] for x in tn.asked} == set(range(2 ** k))
            return go
        for outs, how in ((nodes, "own"), (nodes, "flat"), (nodes + [1, 0], "given"), (None, "given")):
            try: ok = state(outs, how)()
            except Exception: ok = False      # noqa: BLE001
            ob.structural(f"state vector of {k} nodes ({how}, {outs is not None}): the coefficients in order, normalised", ok)
        for i in range(2 ** k if k else 0):
            for form in (i, format(i, f"0{k}b")):
                try: ok = abs(mk(nodes).basis_amplitude(form) - abs(v[i] * .5) ** 2) < 1e-12
                except Exception: ok = False      # noqa: BLE001
                ob.structural(f"basis_amplitude({form!r}) of {k} nodes: the squared modulus of the normalised coefficient", ok)
    for k in range(1, 6):
        def go():
            vs = [gen(f"v{i}", 2) for i in range(k)]; w = vs[0]
            for x in vs[1:]: w = np.multiply.outer(w, x)
            class NPX:
                def __getattr__(self, a): return getattr(np, a)
                def array(self, x, dtype=None, **kw): return np.asarray(x, object if MODE[0] is None else dtype)
            return same(X.rebind(tnm.outer_product, np=NPX())(vs), w)
        ident(ob, f"outer_product of {k} vectors: the product of their entries, axes in order", go)

@P.proof("graph states, one node of each kind", [F + "MBQCTensorNet.prepare_graph_state"], "tensor by tensor: each tensor of the real network against its contract, every sequence of edge orientations at a node")
def graph_node(ob):
    """The tensor of a node of degree d, over a leg for the node and one per edge, is 2^(d/4-1/2) times the product over its edges of the row of its value in
    |0>,|1> (one end of the edge) or |+>,|-> (the other end).  The two ends of every edge have different kinds, <x|H|y> = (-1)^(xy)/sqrt 2, so the contraction
    is 2^(-n/2) prod (-1)^(x_u x_v): lemma below per edge; the factors 2^(1/4) of the two ends cancel the 1/sqrt 2."""
    s = 2 ** -.5; rows = {False: np.array([[s, s], [s, -s]]), True: np.eye(2)}      # kind of an end -> rows of the values 0, 1
    for a, b in itertools.product((0, 1), repeat=2):
        ob.structural(f"an edge between values {a}, {b}: sqrt 2 <row|row> = (-1)^(ab), whichever end has which kind", all(abs(2 ** .5 * rows[k][a] @ rows[not k][b] - (-1) ** (a * b)) < 1e-12 for k in (True, False)))
    def run(nodes, edges):
        tn = MBQCTensorNet(ConstBranchSelector(0)); tn.prepare_graph_state(iter(nodes), iter(edges))
        if set(tn._dangling) != {str(v) for v in nodes} or len(tn.tensor_map) != len(nodes): return False
        ends = {}; at = {}
        for t in tn.tensor_map.values():
            own = [v for v in nodes if tn._dangling[str(v)] in t.inds]
            if len(own) != 1 or own[0] in at or set(t.tags) != {str(own[0]), "Open"}: return False
            at[own[0]] = t
            for i in t.inds:
                if i != tn._dangling[str(own[0])]: ends.setdefault(i, []).append(own[0])
        if sorted(tuple(sorted(x)) for x in ends.values()) != sorted(tuple(sorted(e)) for e in edges): return False
        kind = {}
        for v, t in at.items():
            d = t.transpose(tn._dangling[str(v)], *[i for i in t.inds if i != tn._dangling[str(v)]]); legs = d.inds[1:]; k = len(legs); hit = None
            for ks in itertools.product((True, False), repeat=k):
                w = []
                for x in (0, 1):
                    p = np.ones(())
                    for q in ks: p = np.multiply.outer(p, rows[q][x])
                    w.append(p * 2 ** (k / 4 - .5))
                if np.allclose(d.data, np.array(w)): hit = ks; break
            if hit is None: return False
            for i, q in zip(legs, hit): kind.setdefault(i, []).append(q)
        return all(sorted(x) == [False, True] for x in kind.values())
    for d in range(0, 7):
        for ori in itertools.product((0, 1), repeat=d):
            for c in (-1, 3, 50):      # the label of the node: below, among, or above its neighbours
                leaves = [j + (j >= c) for j in range(d)]
                edges = [(c, v) if o else (v, c) for o, v in zip(ori, leaves)]
                try: ok = run([c, *leaves], edges)
                except Exception: ok = False      # noqa: BLE001
                ob.structural(f"node {c} of degree {d}, orientations {ori}: the tensors of the node and its neighbours", ok)
    for n in range(2, 5):
        es = list(itertools.combinations(range(n), 2))
        for bits in itertools.product((0, 1), repeat=len(es)):
            e = [x if (sum(bits) + i) % 2 else x[::-1] for i, (x, b) in enumerate(zip(es, bits)) if b]
            for nodes in (list(range(n)), list(range(n))[::-1]):
                try: ok = run(nodes, e)
                except Exception: ok = False      # noqa: BLE001
                ob.structural(f"graph {e} on {nodes}: the tensors of the nodes", ok)

# -- bounded: graph states, whole patterns ------------------------------------------------------------------------
def _graphs(rng, tier):
    out = []
    for n in range(0, 5):
        es = list(itertools.combinations(range(n), 2))
        for bits in itertools.product((0, 1), repeat=len(es)): out.append(("all", n, [e for e, b in zip(es, bits) if b], rng.getrandbits(32)))
    for n in range(5, 9): out.append(("star", n, [(0, i) for i in range(1, n)], rng.getrandbits(32)))
    yield from out
    while True:
        n = rng.randrange(4, 9); es = [e for e in itertools.combinations(range(n), 2) if rng.random() < .4]
        yield ("random", n, es, rng.getrandbits(32))
@P.bounded("graph states", [F + "MBQCTensorNet.prepare_graph_state", F + "outer_product", F + "MBQCTensorNet.__init__"], _graphs, "all graphs on at most 4 nodes, stars up to degree 7, random graphs up to 8 nodes, random labels and edge orientations", quick=12, thorough=60)
def graph_states(case):
    _, n, es, seed = case; r = random.Random(seed)
    lab = list(range(n)) if seed % 3 else r.sample(range(3 * n + 1), n)
    es = [(u, v) if r.random() < .5 else (v, u) for u, v in es]; r.shuffle(es)
    nodes = list(lab); r.shuffle(nodes)
    tn = MBQCTensorNet(ConstBranchSelector(0), graph_nodes=nodes, graph_edges=[(lab[u], lab[v]) for u, v in es], default_output_nodes=lab)
    t = np.full((2,) * n, 2 ** (-n / 2), complex)
    for u, v in es: t = apply(M.CZ, t, [u, v])
    if n == 0: return None
    got = value(tn, lab)
    if got is None: return f"open legs of the graph state of {es} on {lab}"
    if not np.allclose(got.astype(complex), t): return f"graph state of {es} on {lab}: {got.astype(complex).ravel().round(3).tolist()}"
    try: sv = tn.to_statevector()
    except Exception as e: return f"to_statevector of the graph state of {es} on {lab}: {e!r}"
    if not M.phase_equal(np.asarray(sv).reshape(-1, 1), t.reshape(-1, 1)): return f"to_statevector of the graph state of {es} on {lab}"
    return None

def _pats(rng, tier):
    while True: yield (rng.getrandbits(40), rng.choice(["seq", "seq", "par", "par", "flow", "auto"]))
def _vec(p, out):
    a, res = psim.branch(p, out)
    k = len(p.input_nodes); v = a.reshape(a.shape[0], -1) @ np.full(2 ** k, 2 ** (-k / 2))
    return v, res
@P.bounded("patterns", [F + "TensorNetworkBackend", F + "TensorNetworkBackend.__init__", F + "MBQCTensorNet.to_statevector", F + "MBQCTensorNet.flatten", F + "MBQCTensorNet.basis_amplitude", "graphix/simulator.py:PatternSimulator.run"],
           _pats, "random runnable patterns on at most 7 nodes prepared in |+>, up to 3 branches each, both graph preparations", quick=35, thorough=300)
def patterns(case):
    seed, how = case; r = random.Random(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "flow":
            from graphix.random_objects import rand_circuit
            c = rand_circuit(r.randrange(2, 4), 1, np.random.default_rng(seed % 2 ** 32), use_cz=r.random() < .5, use_rzz=False)
            p = c.transpile().pattern
            if len(p) > 90: return None
            if r.random() < .5: p.standardize()
        else:
            p = G.pattern(r, n=r.randrange(1, 8), states=False, n_out=r.randrange(1, 4), live=5)
            if any(c.kind == K.N and c.state != BasicStates.PLUS for c in p): p = None
        if p is None or not p.output_nodes: return None
        ms = psim.measured(p)
        prep = {"seq": "sequential", "par": "parallel"}.get(how, r.choice(["sequential", "auto", "parallel"]))
        if prep == "parallel":
            try: p.standardize()
            except NotImplementedError: return None
            if any(c.kind == K.C for c in p):
                try: p.remove_local_clifford_commands()
                except Exception: return None
            if not p.is_standard(): return None
            ms = psim.measured(p)
        if prep == "auto" and p.is_standard() and any(c.kind == K.C for c in p): return None
        for _ in range(3 if how != "flow" else 1):
            out = {m: r.randrange(2) for m in ms}
            want, res = _vec(p, out)
            nrm = np.linalg.norm(want)
            if nrm < 1e-6: continue
            want = want / nrm
            try: b = TensorNetworkBackend(p, graph_prep=prep, branch_selector=FixedBranchSelector(results=out))
            except NotImplementedError: return None
            snap = (repr(list(p)), list(p.input_nodes), list(p.output_nodes))
            try: tn = p.simulate(backend=b)
            except Exception as e: return f"{prep} {out}\n{p}\n{list(p)}: {e!r}"
            if snap != (repr(list(p)), list(p.input_nodes), list(p.output_nodes)): return f"the pattern is changed by the execution: {snap}"
            if dict(b.results) != out: return f"results {b.results} instead of {out}: {list(p)}"
            got = np.asarray(tn.to_statevector())
            if not M.phase_equal(got.reshape(-1, 1), want.reshape(-1, 1), 1e-7): return f"{prep}, branch {out} of {list(p)} inputs {p.input_nodes} outputs {p.output_nodes}:\n{got.round(4).tolist()}\nvs\n{want.round(4).tolist()}"
            fl = np.asarray(tn.flatten())
            if not np.allclose(fl, got): return f"flatten: {list(p)}"
            n = len(p.output_nodes)
            if n <= 3:
                i = r.randrange(2 ** n)
                for form in (i, format(i, f"0{n}b")):
                    a = tn.basis_amplitude(form)
                    if abs(a - abs(want[i]) ** 2) > 1e-7: return f"basis_amplitude({form!r}) = {a} instead of {abs(want[i]) ** 2} for {list(p)}, {out}"
                k = r.randrange(1, min(n, 2) + 1); qs = r.sample(range(n), k); g = np.random.default_rng(seed % 2 ** 32)
                op = g.normal(size=(2 ** k, 2 ** k)) + 1j * g.normal(size=(2 ** k, 2 ** k))
                e = tn.expectation_value(op, qs); w = np.vdot(want, apply(op, want.reshape((2,) * n), qs).ravel())
                if abs(e - w) > 1e-6: return f"expectation value on {qs} = {e} instead of {w} for {list(p)}, {out}"
                tn.evolve(op, qs, decompose=r.random() < .5); w = apply(op, want.reshape((2,) * n), qs).ravel(); w = w / np.linalg.norm(w); got = np.asarray(tn.to_statevector())
                if not M.phase_equal(got.reshape(-1, 1), w.reshape(-1, 1), 1e-6): return f"evolve on {qs} after {list(p)}, {out}"
    return None
@P.bounded("histories of operations", [F + "MBQCTensorNet." + m for m in ("add_qubit", "add_qubits", "evolve_single", "evolve", "measure_single", "expectation_value", "basis_coefficient", "to_statevector", "norm", "copy")] + [F + "TensorNetworkBackend.entangle_nodes"], lambda rng, tier: iter(lambda: rng.getrandbits(40), None),
           "random histories of up to 10 operations on networks of up to 5 qubits, operators on up to 4 qubits", quick=15, thorough=120)
def histories(seed):
    r = random.Random(seed); g = np.random.default_rng(seed % 2 ** 32); log = []
    cx = lambda *sh: g.normal(size=sh) + 1j * g.normal(size=sh)
    names = {"plus": (M.S2, M.S2), "minus": (M.S2, -M.S2), "zero": (1, 0), "one": (0, 1), "iplus": (M.S2, 1j * M.S2), "iminus": (M.S2, -1j * M.S2)}
    n = r.randrange(1, 6); lab = r.sample(range(9), n); live = list(lab)
    tn = MBQCTensorNet(ConstBranchSelector(0)); T = np.ones((), complex)
    todo = list(lab)
    while todo:
        k = r.randrange(1, len(todo) + 1); new, todo = todo[:k], todo[k:]; sts = []
        one = r.random() < .4; nm = r.choice(sorted(names))
        for _ in new:
            if r.random() < .5 or one: s = nm if one or r.random() < .7 else r.choice(sorted(names)); sts.append((s, np.array(names[s], complex)))
            else: v = cx(2); v /= np.linalg.norm(v); sts.append((v, v))
        log.append(("add", new, [s for s, _ in sts]))
        if one and r.random() < .5: tn.add_qubits(new, nm)
        elif r.random() < .5 and not isinstance(sts[0][0], str) and len(new) == 1: tn.add_qubits(new, sts[0][0])
        elif r.random() < .5: tn.add_qubits(new, [s for s, _ in sts])
        else:
            for v, (s, _) in zip(new, sts): tn.add_qubit(v, s)
        for _, v in sts: T = np.tensordot(T, v, axes=0)
    tn.default_output_nodes = r.sample(lab, n); b = backend(tn, lab)
    for _ in range(r.randrange(1, 9)):
        if not live: break
        op = r.choice(["single", "cz", "evolve", "evolve", "measure", "copy"]); old = None
        if op == "single":
            q = r.choice(live); U = cx(2, 2); tn.evolve_single(q, U.copy()); T = apply(U, T, [live.index(q)]); log.append((op, q))
        elif op == "cz" and len(live) > 1:
            e = r.sample(live, 2); b.entangle_nodes(tuple(e)); T = apply(M.CZ, T, [live.index(x) for x in e]); log.append((op, e))
        elif op == "evolve":
            k = r.randrange(1, min(4, len(live)) + 1); qs = r.sample([i for i, x in enumerate(tn.default_output_nodes) if x in live], k); U = cx(2 ** k, 2 ** k); dec = r.random() < .6
            log.append((op, qs, dec)); keep = U.copy(); tn.evolve(U if r.random() < .5 else U.reshape((2,) * 2 * k), qs, decompose=dec)
            if not np.array_equal(U, keep): return f"the operator is changed: {log}"
            T = apply(U, T, [live.index(tn.default_output_nodes[i]) for i in qs])
        elif op == "measure" and len(live) > 1:
            q = r.choice(live); v = cx(2); v /= np.linalg.norm(v); kind = r.randrange(4); out = r.randrange(2)
            if kind == 3: tn.measure_single(q, basis=v.copy())
            else: tn.measure_single(q, basis="XYZ"[kind], outcome=out); v = np.array(names[[["plus", "minus"], ["iplus", "iminus"], ["zero", "one"]][kind][out]], complex)
            T = np.tensordot(T, v.conj(), axes=(live.index(q), 0)); live.remove(q); log.append((op, q, kind, out))
        elif op == "copy":
            c = tn.copy(deep=r.random() < .3); log.append((op,)); U = cx(2, 2); q = r.choice(live)
            if r.random() < .5: old = (tn, value(tn, live)); tn = c; b = backend(tn, lab); tn.evolve_single(q, U); T = apply(U, T, [live.index(q)])
            else: c.evolve_single(q, U)
            if list(tn.default_output_nodes or []) != list(c.default_output_nodes or []): return f"output nodes of a copy: {log}"
        if old is not None and not np.allclose(np.asarray(value(old[0], live), complex), np.asarray(old[1], complex)): return f"an operation on a copy changes the original: {log}"
        nrm = np.linalg.norm(T)
        if nrm < 1e-3 or nrm > 1e6: return None
    got = value(tn, live)
    if got is None or not np.allclose(np.asarray(got, complex), T, rtol=1e-6, atol=1e-6 * max(1, nrm if log[1:] and len(log) > 1 else 1)): return f"contraction after {log} on {lab}"
    order = r.sample(live, len(live)); S = np.moveaxis(T, [live.index(x) for x in order], list(range(len(live)))); nrm = np.linalg.norm(T)
    if abs(tn.norm() - nrm) > 1e-6 * max(1, nrm): return f"norm after {log}"
    if not np.allclose(tn.to_statevector(order), S.ravel() / nrm, atol=1e-6): return f"to_statevector({order}) after {log}"
    k = r.randrange(1, min(3, len(order)) + 1); qs = r.sample(range(len(order)), k); O = cx(2 ** k, 2 ** k)
    e = tn.expectation_value(O, qs, output_node_indices=order); w = np.vdot(S, apply(O, S, qs)) / nrm ** 2
    if abs(e - w) > 1e-6 * max(1, abs(w)): return f"expectation_value on {qs} of {order} after {log}: {e} instead of {w}"
    return None

def _iso(rng, tier):
    while True: yield rng.getrandbits(40)
@P.bounded("isolated nodes", [F + "TensorNetworkBackend.measure"], _iso, "random local operations and one measurement of a node without edges, with a random and with a prescribed outcome", quick=8, thorough=40)
def isolated(seed):
    r = random.Random(seed); cl = list(Clifford); cmds = [command.N(0), command.N(1)]; v = np.array([M.S2, M.S2], complex)
    if r.random() < .4: cmds += [command.N(2), command.E((0, 2)), command.M(2, Measurement.XY(.3)), command.X(0, {2})]
    for _ in range(r.randrange(3)):
        c = r.choice(cl); cmds.append(command.C(1, c)); v = psim.clifford_matrix(c) @ v
    m = G.measurement(r); cmds.append(command.M(1, m)); p = Pattern(cmds=cmds, output_nodes=[0])
    p0 = abs(psim.bra(m, 0) @ v) ** 2; asked = []
    class Sel(BranchSelector):
        def measure(self, q, f, rng=None, *, stacklevel=1):
            pr = f()
            if q == 1: asked.append(pr); return 0 if p0 > .5 else 1
            return 0
    preps = ["sequential"] + (["parallel"] if p.is_standard() and not any(c.kind == K.C for c in cmds) else [])
    for prep in preps:
        asked.clear(); tn = p.simulate(backend="tensornetwork", graph_prep=prep, branch_selector=Sel())
        if not asked or abs(asked[0] - p0) > 1e-6: return f"{prep} {cmds}: probability of outcome 0 is {asked}, not {p0}"
        if abs(tn.norm() - 1) > 1e-6: return f"{prep} {cmds}: norm {tn.norm()}"
    return None
