from __future__ import annotations
import itertools, math, random
import numpy as np
from gv import boot, gen as G, mats as M  # noqa: F401
from gv import cutloop as CL, extract as X, tensor as T
from gv.core import Prop, Unfit, need
from gv.sym import Infeasible, PathEnd
from graphix.channels import KrausChannel, KrausData
from graphix.clifford import Clifford
from graphix.ops import Ops
from graphix.sim import base_backend as bb
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates

z3 = boot.z3()
F, FB = "graphix/sim/density_matrix.py:", "graphix/sim/base_backend.py:"
P = Prop("C18", "proof",
    "The operations are executed by the real code on tensors with symbolic axes or generic entries; histories of operations are compared with dense "
    "linear algebra on density matrices and with the state-vector class.", [], ["numpy tensordot, moveaxis, reshape, transpose, kron, trace"])

# -- tensors with symbolic axes ------------------------------------------------------------------------------------
def arity(tier_max=3): return range(1, tier_max + 1)

class Lin:
    """A density matrix of an arbitrary number n of qubits, k arbitrary distinct targets, and an arbitrary further ket leg u and bra leg v."""
    def __init__(s, eng, k, rebound=(), spare=True):
        s.eng, s.k = eng, k; Int = lambda b: z3.Int(eng.fresh(b))
        s.n = n = Int("n"); s.q = [Int("q") for _ in range(k)]; s.u, s.v = Int("u"), Int("v")
        eng.assume(n >= k)
        for x in (*s.q, s.u, s.v): eng.assume(z3.And(x >= 0, x < n))
        if k: eng.assume(z3.Distinct(*s.q, s.u)); eng.assume(z3.Distinct(*s.q, s.v))
        legs = {R("ket", j): x for j, x in enumerate(s.q)} | {R("bra", j): n + x for j, x in enumerate(s.q)} | {R("ket", "u"): s.u, R("bra", "v"): n + s.v}
        s.rho = T.Ten(legs, 2 * n, rows=n)
        s.dm = make(rebound)(s.rho); s.targets = tuple(T.N(x) for x in s.q)
    def result(s, what, legs, pairs, rank, t=None):
        eng = s.eng; t = s.dm.rho if t is None else t
        if not isinstance(t, T.Ten): raise Unfit("the result")
        got = {frozenset(p) for p in t.pairs}
        eng.prove(f"{what}: exactly the legs of the targets are contracted, with the right legs of the operator", got == {frozenset(p) for p in pairs} and len(t.pairs) == len(pairs))
        eng.prove(f"{what}: the legs of the result", set(t.legs) == set(legs))
        for l, p in legs.items():
            if l in t.legs: eng.prove(f"{what}: every leg ends up in its place", t.legs[l] == p)
        eng.prove(f"{what}: a square matrix on the right number of qubits", z3.And(t.rank == rank, 2 * t.rows == rank) if isinstance(t.rows, z3.ExprRef) else False)
def R(side, j): return ("rho", False, side, j)
def make(rebound):
    class DM(DensityMatrix):
        def __init__(self, data=None, nqubit=None):
            if nqubit is not None: raise Unfit("construction")
            if isinstance(data, DM): self.rho = data.rho.copy(); self.made = True
            else: self.rho = data
    for m, kw in rebound: setattr(DM, m, X.rebind(getattr(DensityMatrix, m), **{**T.ENV, "DensityMatrix": DM, **kw}))
    return DM
def conjugation(s, op="op"):
    """legs and pairs of  O rho O^dagger  on the targets"""
    legs = {(op, False, "out", j): x for j, x in enumerate(s.q)} | {(op, True, "out", j): s.n + x for j, x in enumerate(s.q)} | {R("ket", "u"): s.u, R("bra", "v"): s.n + s.v}
    return legs, [((op, False, "in", j), R("ket", j)) for j in range(s.k)] + [((op, True, "in", j), R("bra", j)) for j in range(s.k)]

def raises(eng, f, label):
    """f does not reject its arguments"""
    try: return f()
    except (ValueError, AssertionError) as x: eng.prove(label, False); raise PathEnd from x

@P.proof("evolution", [F + "DensityMatrix.evolve_single", F + "DensityMatrix.evolve", F + "DensityMatrix.nqubit"], "z3 (tensors with symbolic axes)")
def evolution(ob):
    def h(eng):
        s = Lin(eng, 1, [("evolve_single", {})])
        raises(eng, lambda: s.dm.evolve_single(T.operator("op", 1), s.targets[0]), "an admissible operation is not rejected")
        s.result("evolve_single", *conjugation(s), 2 * s.n); eng.covered.add("done")
    CL.attempt(ob, "evolve_single", h).close(["done"])
    for k in arity():
        def h(eng):
            s = Lin(eng, k, [("evolve", {})])
            raises(eng, lambda: s.dm.evolve(T.operator("op", k), s.targets if k % 2 else list(s.targets)), "an admissible operation is not rejected")
            s.result("evolve", *conjugation(s), 2 * s.n); eng.covered.add("done")
        CL.attempt(ob, f"evolve, {k} targets", h).close(["done"])

@P.proof("rejections of operations", [F + "DensityMatrix.evolve_single", F + "DensityMatrix.evolve", F + "DensityMatrix.expectation_single", F + "DensityMatrix.ptrace"], "z3 (tensors with symbolic axes)")
def rejections(ob):
    """arbitrary targets, in range or not, distinct or not: either rejected with the state unchanged, or admissible"""
    for name, k, kop in (("evolve_single", 1, 1), ("evolve_single", 1, 2), ("evolve", 1, 1), ("evolve", 2, 2), ("evolve", 1, 2), ("evolve", 2, 1), ("expectation_single", 1, 1), ("expectation_single", 1, 2), ("ptrace", 1, None), ("ptrace", 2, None)):
        def h(eng):
            class Went(Exception): pass
            class Watch(T.NumpyT):
                """the state is about to be changed"""
                @staticmethod
                def tensordot(*a): raise Went
            def td(*a, **k): raise Went
            n = z3.Int(eng.fresh("n")); q = [z3.Int(eng.fresh("q")) for _ in range(k)]; eng.assume(n >= 0)
            rho = T.Ten({}, 2 * n, rows=n); dm = make([(name, dict(np=Watch(), tensordot=td))])(rho)
            type(dm).normalize = lambda self: None
            good = [z3.And(x >= 0, x < n) for x in q] + ([z3.Distinct(*q)] if len(q) > 1 else []) + ([z3.BoolVal(kop == k)] if kop else [])
            qs = tuple(T.N(x) for x in q); qs = qs[0] if name in ("evolve_single", "expectation_single") else qs
            args = (qs,) if kop is None else (T.operator("op", kop), qs)
            try: getattr(dm, name)(*args)
            except Went: eng.covered.add("accepted"); eng.prove(f"{name}: only admissible targets and operators are accepted", z3.Or(z3.And(*good), z3.Not(z3.Distinct(*q)) if k > 1 else z3.BoolVal(False)))      # numpy rejects repeated axes
            except (ValueError, AssertionError):
                eng.covered.add("rejected"); eng.prove(f"{name}: admissible targets and operators are not rejected", z3.Not(z3.And(*good)))
            else: raise Unfit("no contraction")
            eng.prove(f"{name}: the state is unchanged by a rejected operation", dm.rho is rho)
        CL.attempt(ob, f"{name}, {k} targets, operator on {kop}", h).close(["rejected"] + (["accepted"] if kop in (k, None) else []))

@P.proof("partial trace", [F + "DensityMatrix.ptrace"], "z3 (tensors with symbolic axes)")
def partial_trace(ob):
    for k in arity():
        for single in ([False, True] if k == 1 else [False]):
            def h(eng):
                s = Lin(eng, k, [("ptrace", {})])
                raises(eng, lambda: s.dm.ptrace(s.targets[0] if single else list(s.targets) if k % 2 else s.targets), "an admissible operation is not rejected")
                below = lambda x: z3.Sum([z3.If(p < x, 1, 0) for p in s.q])
                t = s.dm.rho
                # ket leg j and bra leg j meet the same identity matrix
                ends = {}
                for a, b in t.pairs if isinstance(t, T.Ten) else []:
                    i, o = (a, b) if a[0] == "id" else (b, a)
                    ends[i] = o
                joined = {frozenset((ends.get(("id", False, "row", j)), ends.get(("id", False, "col", j)))) for j in range(k)}
                eng.prove("ptrace: the ket leg of each target is summed together with its bra leg", joined == {frozenset((R("ket", j), R("bra", j))) for j in range(k)} and len(t.pairs) == 2 * k)
                s.result("ptrace", {R("ket", "u"): s.u - below(s.u), R("bra", "v"): s.n - k + s.v - below(s.v)}, t.pairs, 2 * (s.n - k)); eng.covered.add("done")
            CL.attempt(ob, f"ptrace of {k}" + (" (an integer)" if single else ""), h).close(["done"])

@P.proof("permutation", [F + "DensityMatrix.permute"], "z3 (tensors with symbolic axes)")
def permutation(ob):
    def h(eng):
        n, t = z3.Int(eng.fresh("n")), z3.Int(eng.fresh("t")); p = z3.Function("perm", z3.IntSort(), z3.IntSort())
        eng.assume(z3.And(n >= 1, t >= 0, t < n, p(t) >= 0, p(t) < n)); seen = []
        class Perm:
            def __iter__(self): yield T.Mark(p(t), t, n)
            def __getattr__(self, a): raise Unfit(f"permutation: {a}")
        perm = Perm(); rho = T.Ten({R("ket", 0): p(t), R("bra", 0): n + p(t)}, 2 * n, rows=n)
        dm = make([("permute", dict(_check_permutation=lambda x, m: seen.append((x, m))))])(rho)
        raises(eng, lambda: dm.permute(perm), "a permutation is not rejected")
        eng.prove("permute: the permutation is checked against the number of qubits", len(seen) == 1 and seen[0][0] is perm and T.valid(T.ZI.of(seen[0][1]) == n))
        r = dm.rho; eng.prove("permute: nothing is contracted", isinstance(r, T.Ten) and not r.pairs and set(r.legs) == {R("ket", 0), R("bra", 0)})
        eng.prove("permute: qubit t of the result is qubit permutation[t]", z3.And(r.legs[R("ket", 0)] == t, r.legs[R("bra", 0)] == n + t, r.rank == 2 * n, r.rows == n)); eng.covered.add("done")
    CL.attempt(ob, "permute", h).close(["done"])

@P.proof("expectation values", [F + "DensityMatrix.expectation_single"], "z3 (tensors with symbolic axes)")
def expectation(ob):
    def h(eng):
        s = Lin(eng, 1, [("expectation_single", dict(complex=lambda x: x))]); log = []
        type(s.dm).normalize = lambda self: log.append(self)
        got = raises(eng, lambda: s.dm.expectation_single(T.operator("op", 1), s.targets[0]), "an admissible operation is not rejected")
        eng.prove("the state is unchanged", s.dm.rho is s.rho)
        eng.prove("the state measured is a normalized copy", len(log) == 1 and log[0] is not s.dm and getattr(log[0], "made", False))
        if not isinstance(got, T.Trace): raise Unfit("result")
        s.result("expectation", {("op", False, "out", 0): s.q[0], R("bra", 0): s.n + s.q[0], R("ket", "u"): s.u, R("bra", "v"): s.n + s.v}, [(("op", False, "in", 0), R("ket", 0))], 2 * s.n, got.t); eng.covered.add("done")
    CL.attempt(ob, "expectation_single", h).close(["done"])

# -- the wrappers and the composite operations, on opaque arrays ----------------------------------------------------
C, O = np.dtype(np.complex128), np.dtype(object)
@P.proof("wrappers", [FB + x for x in ("tensordot", "kron", "outer", "vdot", "matmul")], "evaluation (opaque arrays)")
def wrappers(ob):
    for name in ("tensordot", "kron", "outer", "vdot", "matmul"):
        fn = X.rebind(getattr(bb, name), np=T.NumpyA(), complex=lambda x: x, check_expression_or_complex=lambda x: x)
        for da, db in itertools.product((C, O), repeat=2):
            a, b = T.Arr("a", da), T.Arr("b", db); ex = ("axes",) if name == "tensordot" else (); what = f"{name} of {da} and {db}"
            try: r = fn(a, b, *ex)
            except TypeError: ob.structural(what + ": operands of one type are accepted", da != db and name != "tensordot"); continue
            want = [("@" if name == "matmul" else name, "a", "b", *e) for e in ([ex, (("axes", "axes"),)] if ex else [()])]
            ob.structural(what + ": the operation of numpy, in this order", r.val in want)
            ob.structural(what + ": the type of the result", r.dtype == (C if da == db == C else O) and (da == db or name == "tensordot"))
            ob.structural(what + ": the operands are unchanged", a.val == "a" and b.val == "b" and a.dtype == da and b.dtype == db)

def opaque(rebound, rho):
    class DM(DensityMatrix):
        def __init__(self, data=None, nqubit=None): self.rho = T.Arr(("DM", data if not isinstance(data, T.Arr) else data.val, nqubit))
    for m, kw in rebound: setattr(DM, m, X.rebind(getattr(DensityMatrix, m), **{"np": T.NumpyA(), "DensityMatrix": DM, "kron": T.NumpyA.kron, "vdot": T.NumpyA.vdot, "matmul": T.NumpyA.matmul, **kw}))
    d = object.__new__(DM); d.rho = rho
    return d, DM

@P.proof("composite operations", [F + "DensityMatrix." + m for m in ("cnot", "swap", "entangle", "add_nodes", "tensor", "remove_qubit", "normalize", "fidelity", "apply_noise")], "evaluation (opaque arrays)")
def composite(ob):
    for m, g, ref in (("cnot", Ops.CNOT, M.CNOT), ("swap", Ops.SWAP, M.SWAP), ("entangle", Ops.CZ, M.CZ)):
        ob.check(f"{m}: the operator", np.array_equal(np.asarray(g), ref))
        d, DM = opaque([(m, {})], T.Arr("rho")); log = []; DM.evolve = lambda self, *a: log.append((self, a)); q = ("q0", "q1")
        getattr(d, m)(q); ob.structural(f"{m} evolves with its operator, once, on the same qubits", len(log) == 1 and log[0][0] is d and np.array_equal(np.asarray(log[0][1][0]), ref) and tuple(log[0][1][1]) == q)
    for ds, do in itertools.product((C, O), repeat=2):
        if (ds, do) == (C, O): continue      # kron rejects it
        d, DM = opaque([("tensor", {})], T.Arr("rho", ds)); o, _ = opaque([], T.Arr("other", do)); o.__class__ = DM; a = o.rho
        d.tensor(o); ob.structural(f"tensor of {ds} and {do}", d.rho.val == ("kron", "rho", "other") and o.rho.val == "other" and a.val == "other" and d.rho.dtype == ds)
    for kind in ("data",):
        d, DM = opaque([("add_nodes", {}), ("tensor", {})], T.Arr("rho")); d.add_nodes(3, kind)
        ob.structural("add_nodes: the product with the density matrix of the data on that number of qubits", d.rho.val == ("kron", "rho", ("DM", kind, 3)))
    for dt in (C, O):
        a = T.Arr("rho", dt); d, DM = opaque([("normalize", {})], a); d.normalize(); ob.structural(f"normalize {dt}: the matrix is divided by its trace, once", d.rho.val == ("/", "rho", ("trace", "rho")) and d.rho.dtype == dt)
        d, DM = opaque([("remove_qubit", {}), ("normalize", {})], T.Arr("rho", dt)); log = []
        def pt(self, q): log.append(q); self.rho = T.Arr(("ptrace", self.rho.val), self.rho.dtype)
        DM.ptrace = pt; d.remove_qubit("q"); t = ("ptrace", "rho")
        ob.structural(f"remove_qubit {dt}: normalized partial trace over that qubit", log in (["q"], [["q"]], [("q",)]) and d.rho.val == ("/", t, ("trace", t)))
        class Psi: psi = T.Arr("psi", dt)
        d, DM = opaque([("fidelity", dict(Expression=T.Arr if dt == O else type("E", (), {}), math=type("Math", (), {"isclose": staticmethod(lambda *a, **k: True)})))], T.Arr("rho", dt))
        T.Arr.real = T.Arr.imag = property(lambda s: s)
        try: r = d.fidelity(Psi)
        finally: del T.Arr.real, T.Arr.imag
        ob.structural(f"fidelity {dt}: <psi|rho|psi>", r.val == ("vdot", "psi", ("@", "rho", "psi")) and d.rho.val == "rho")
    d, DM = opaque([("apply_noise", {})], T.Arr("rho")); log = []; DM.apply_channel = lambda self, *a: log.append(a)
    class Noise:
        def to_krauschannel(self): return "channel"
    d.apply_noise("qubits", Noise()); ob.structural("apply_noise applies the channel of the noise to the qubits", log == [("channel", "qubits")])


@P.proof("construction", [F + "DensityMatrix.__init__", F + "DensityMatrix.nqubit", F + "DensityMatrix.flatten"], "evaluation: every kind of data, sizes up to 3 qubits, every answer of the checks")
def construction_unit(ob):
    from graphix.parameter import Placeholder
    gen = np.random.default_rng(11)
    def mat(n, dt=np.complex128):
        a = gen.normal(size=(1 << n, 1 << n)) + 1j * gen.normal(size=(1 << n, 1 << n))
        if dt != np.complex128: a = a.real
        r = a @ a.conj().T; return (r / np.trace(r)).astype(dt)
    def make(f, *a, **k):
        try: return f(*a, **k)
        except (ValueError, TypeError) as e: return e
    sizes = (None, 0, 1, 2, 3)
    for n in range(4):
        for nq in sizes:
            bad = nq not in (None, n); tag = f"{n} qubits, nqubit={nq}"
            for dt in (np.complex128, np.float64):
                m = mat(n, dt)
                for form in (lambda x: x, lambda x: [list(r) for r in x], lambda x: tuple(map(tuple, x)), lambda x: iter(x)):
                    r = make(DensityMatrix, form(m), nq); ok = isinstance(r, ValueError) if bad else isinstance(r, DensityMatrix) and r.nqubit == n and r.rho.dtype == np.complex128 and np.array_equal(r.rho, m) and not np.shares_memory(r.rho, m)
                    ob.check(f"{tag}: matrix of {np.dtype(dt)} {'refused' if bad else 'taken as it is, not shared'}", ok)
            src = DensityMatrix(mat(n)); keep = src.rho.copy(); r = make(DensityMatrix, src, nq)
            ob.check(f"{tag}: density matrix {'refused' if bad else 'copied'}", np.array_equal(src.rho, keep) and (isinstance(r, ValueError) if bad else r.nqubit == n and np.array_equal(r.rho, keep) and not np.shares_memory(r.rho, src.rho)))
            ob.check(f"{tag}: flat entries row by row", np.array_equal(np.asarray(src.flatten()).ravel(), keep.ravel()))
            psi = gen.normal(size=1 << n) + 1j * gen.normal(size=1 << n); psi /= np.linalg.norm(psi); v = Statevector(psi)
            for data in (v, psi, list(psi)):
                r = make(DensityMatrix, data, nq); want = np.array([[a * b.conjugate() for b in psi] for a in psi])
                ob.check(f"{tag}: {type(data).__name__} {'refused' if bad else 'as a projector'}", isinstance(r, ValueError) if bad else r.nqubit == n and np.allclose(r.rho, want, rtol=0, atol=1e-14))
    # the checks of a matrix: each is asked, and decides
    for op, tr, psd in itertools.product((False, True), repeat=3):
        log = []
        class Lv:
            def is_qubitop(self, m): log.append("operator"); return op
            def is_unit_trace(self, m): log.append("trace"); return tr
            def is_psd(self, m): log.append("positive"); return psd
        for sym in (False, True):
            log.clear(); ph = Placeholder("x"); a = np.array([[ph if sym else 1, 0], [0, 0]], dtype=object if sym else np.complex128); d = DensityMatrix.__new__(DensityMatrix)
            try: X.rebind(DensityMatrix.__init__, lv=Lv())(d, a); got = True
            except ValueError: got = False
            good = op and (sym or (tr and psd))
            ob.structural(f"operator={op} unit trace={tr} positive={psd} symbolic={sym}: {'accepted' if good else 'refused'}", got == good and (not good or d.rho.dtype == a.dtype and all(x is y if isinstance(x, Placeholder) else x == y for x, y in zip(d.rho.flat, a.flat))))
    seen = []
    class SV:
        def __init__(self, data, nqubit=None): seen.append((data, nqubit)); self.psi = T.Arr("psi")
    for data in (BasicStates.ZERO, [BasicStates.ZERO, BasicStates.PLUS], []):
        for nq in (None, 2):
            seen.clear(); d = DensityMatrix.__new__(DensityMatrix); X.rebind(DensityMatrix.__init__, Statevector=SV, outer=lambda a, b: ("outer", a.val, b.val))(d, data, nq)
            ob.structural(f"{data}, nqubit={nq}: the projector on the state vector of the data", seen == [(data, nq)] and d.rho == ("outer", "psi", ("conj", "psi")))
    for k in (-1, -3): ob.check(f"nqubit={k}: refused", isinstance(make(DensityMatrix, BasicStates.PLUS, k), ValueError))
    for name, m in (("three rows", np.eye(3) / 3), ("trace two", np.eye(2)), ("negative", np.diag([1.5, -.5])), ("not square", np.ones((2, 4)) / 2), ("not hermitian", np.array([[.5, 1], [0, .5]])), ("mixed", [[1, 0], 5])):
        ob.check(f"{name}: refused", isinstance(make(DensityMatrix, m), (ValueError, TypeError)))

@P.proof("channels", [F + "DensityMatrix.apply_channel"], "loop invariant on opaque arrays")
def channels(ob):
    """For channels of any length: the loop is cut after an arbitrary number of terms."""
    class Acc:
        """a sum of terms"""
        dtype = C
        def __init__(s, terms): s.terms = list(terms)
        def __iadd__(s, o): s.terms.append(o.val if isinstance(o, T.Arr) else o); return s
        def __add__(s, o): return Acc([*s.terms, o.val])
        __radd__ = __add__
        def trace(s): return ("trace", s)
        def __getattr__(s, a): raise Unfit(f"operation on a sum: {a}")
    for mode in ("step", "accepted", "rejected"):
        log, accs = [], []
        def zeros(*a, **k): accs.append(Acc([])); return accs[-1]
        class Np(T.NumpyA):
            @staticmethod
            def allclose(x, y, **k):
                if x[0] != "trace" or y != 1 or k: raise Unfit("test")
                log.append(x[1]); return mode != "rejected"
        Np.zeros = staticmethod(zeros)
        class Op: coef, operator = T.Arr("c"), T.Arr("K")
        class Ch(KrausChannel):
            def __init__(s): pass
            def __iter__(s):
                if len(accs) != 1: raise Unfit("no sum")
                log.append(("init", list(accs[0].terms))); accs[0].terms = ["prefix"]
                if mode == "step": yield Op(); log.append(("step", list(accs[0].terms)))
                accs[0].terms = ["all"]
            def __len__(s): raise Unfit("length")
        rho = T.Arr("rho"); d, DM = opaque([("apply_channel", {"np": Np()})], rho)
        class Size:      # 2**nqubit
            def __rpow__(s, o): return s
        DM.nqubit = property(lambda s: Size())
        def ev(self, op, q): self.rho = T.Arr(("evolve", self.rho.val, op.val, q), C)
        DM.evolve = ev; qs = ("q0", "q1")
        try: d.apply_channel(Ch(), qs)
        except ValueError: ob.structural("a channel is rejected only if the result is not normalized, and the state is unchanged", mode == "rejected" and d.rho is rho and rho.val == "rho"); continue
        ob.structural("the sum starts empty", log[0] == ("init", []))
        if mode == "step":
            w = ("evolve", "rho", "K", qs); cc = {("*", "c", ("conj", "c")), ("*", ("conj", "c"), "c")}
            st = [x[1] for x in log if isinstance(x, tuple) and x[0] == "step"]
            ok = len(st) == 1 and len(st[0]) == 2 and st[0][0] == "prefix" and any(st[0][1] in (("*", c, w), ("*", w, c)) for c in cc)
            ob.structural("each operator adds |c|^2 K rho K^dagger on the targets, from the original state", ok and rho.val == "rho")
        ob.structural("the new state is the sum over all operators", isinstance(d.rho, Acc) and d.rho.terms == ["all"] and accs[0] is d.rho)

def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    assert np.allclose(a.astype(complex), b, atol=1e-9), f"{what}: {a.tolist()} instead of {b.tolist()}"

def rand_rho(r, nr, n):
    k = r.choice([1, 2, 3]); w = nr.dirichlet(np.ones(k)); rho = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for x in w:
        v = M.rand_state(nr, n); rho += x * np.outer(v, v.conj())
    return rho

def ptrace(rho, n, qs):
    keep = [q for q in range(n) if q not in qs]
    t = rho.reshape((2,) * (2 * n)); lab = list(range(n)) + [q if q in qs else n + q for q in range(n)]
    return np.einsum(t, lab, keep + [n + q for q in keep]).reshape(2 ** len(keep), -1)

def kraus(r, nr, k):
    """A random channel on k qubits."""
    d = 2 ** k; m = r.randrange(1, min(4 ** k, 5) + 1)
    q, _ = np.linalg.qr(nr.normal(size=(d * m, d)) + 1j * nr.normal(size=(d * m, d)))
    ops = [q[i * d:(i + 1) * d] for i in range(m)]
    out = []
    for o in ops:
        c = complex(nr.normal(), nr.normal()); out.append(KrausData(c, o / c))
    return KrausChannel(out), ops

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([1, 2, 2, 3, 3, 4]))

OPS = ["evolve_single", "evolve", "gate", "add", "tensor", "ptrace", "remove", "permute", "expectation", "channel", "copy", "swap"]

def step(r, nr, s, ref, kind):
    n = s.nqubit; d = f"{kind} on {n} qubits"
    if n == 0 and kind not in ("add", "tensor", "copy") or n < 2 and kind in ("gate", "swap") or n > 4 and kind in ("add", "tensor"): return ref
    if kind == "evolve_single":
        q = r.randrange(n); op = M.rand_unitary(nr, 2) if r.random() < .6 else r.choice([Ops.X, Ops.Y, Ops.H, Clifford(r.randrange(24)).matrix, M.rand_mat(nr, 2)])
        s.evolve_single(op, q); e = M.embed(op, [q], n); ref = e @ ref @ e.conj().T; d += f" {q}"
    elif kind == "evolve":
        k = r.randrange(1, min(n, 3) + 1); qs = r.sample(range(n), k); op = M.rand_unitary(nr, 2 ** k) if r.random() < .6 else M.rand_mat(nr, 2 ** k)
        if r.random() < .2: op = np.asfortranarray(op)
        s.evolve(op, r.choice([list, tuple])(qs)); e = M.embed(op, qs, n); ref = e @ ref @ e.conj().T; d += f" {qs}"
    elif kind in ("gate", "swap"):
        qs = tuple(r.sample(range(n), 2)); g = r.choice(["cnot", "entangle"]) if kind == "gate" else "swap"
        getattr(s, g)(qs); e = M.embed({"cnot": M.CNOT, "entangle": M.CZ, "swap": M.SWAP}[g], qs, n); ref = e @ ref @ e.conj().T; d += f" {g} {qs}"
    elif kind in ("add", "tensor"):
        k = r.randrange(0, 3); u = r.random()
        if u < .3:
            st = r.choice(G.STATES); data = st; v = M.kron(*[st.to_statevector_numpy().reshape(-1, 1)] * k).ravel(); o = np.outer(v, v.conj())
        elif u < .6: o = rand_rho(r, nr, k); data = o if r.random() < .5 else DensityMatrix(o)
        elif u < .7: o = np.diag(nr.dirichlet(np.ones(2 ** k))); data = o.tolist() if r.random() < .5 else o
        else:
            v = M.rand_state(nr, k); o = np.outer(v, v.conj()); data = v if r.random() < .5 else Statevector(v, max_qubits=k + 1)
        if kind == "tensor" and isinstance(data, DensityMatrix):
            s.tensor(data); close(data.rho, o, "tensor modifies its argument")
        else: s.add_nodes(k, data)
        ref = np.kron(ref, o); d += f" {k}"
    elif kind == "ptrace":
        k = r.randrange(0, n + 1); qs = r.sample(range(n), k)
        s.ptrace(qs[0] if k == 1 and r.random() < .5 else r.choice([list, tuple])(qs)); ref = ptrace(ref, n, qs); d += f" {qs}"
    elif kind == "remove":
        q = r.randrange(n); s.remove_qubit(q); ref = ptrace(ref, n, [q]); ref = ref / np.trace(ref); d += f" {q}"
    elif kind == "permute":
        p = list(range(n)); r.shuffle(p); s.permute(p)
        ref = np.transpose(ref.reshape((2,) * (2 * n)), p + [n + x for x in p]).reshape(2 ** n, -1); d += f" {p}"
    elif kind == "expectation":
        keep = s.rho.copy(); q = r.randrange(n); op = M.rand_mat(nr, 2)
        close(s.expectation_single(op, q), np.trace(M.embed(op, [q], n) @ ref) / np.trace(ref), f"expectation {q} of {n}"); close(s.rho, keep, "the expectation value modifies the state")
        if r.random() < .5:
            v = M.rand_state(nr, n); rho = ref / np.trace(ref)
            close(DensityMatrix(rho_ok(rho)).fidelity(Statevector(v, max_qubits=n + r.randrange(2))), np.vdot(v, rho_ok(rho) @ v).real, f"fidelity of {n}")
    elif kind == "channel":
        s.normalize(); ref = ref / np.trace(ref)
        k = r.randrange(1, min(n, 2) + 1); qs = r.sample(range(n), k); ch, ops = kraus(r, nr, k)
        s.apply_channel(ch, r.choice([list, tuple])(qs)); ref = sum(M.embed(o, qs, n) @ ref @ M.embed(o, qs, n).conj().T for o in ops); d += f" {qs}"
    elif kind == "copy":
        if not np.isclose(np.trace(ref), 1): s.normalize(); ref = ref / np.trace(ref)
        t = DensityMatrix(s); close(t.rho, ref, d); t.rho[...] = 9; u = DensityMatrix(s.rho.copy()) if False else None
    close(s.rho, ref, d); assert s.nqubit == int(round(math.log2(len(ref)))) and s.dims() == ref.shape
    close(s.flatten(), ref.ravel(), d)
    return ref

def rho_ok(rho):
    w, v = np.linalg.eigh((rho + rho.conj().T) / 2); w = np.clip(w, 1e-12, None); rho = (v * w) @ v.conj().T
    return rho / np.trace(rho)

@P.bounded("histories of operations", [F + "DensityMatrix." + m for m in ("evolve_single", "evolve", "expectation_single", "add_nodes", "tensor", "cnot", "swap", "permute", "entangle", "normalize", "remove_qubit", "ptrace", "fidelity", "flatten", "apply_channel")] + [FB + x for x in ("tensordot", "kron", "outer", "vdot", "matmul")], cases, "random histories of 10 operations on up to 6 qubits", quick=12, thorough=120)
def hist(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    v = M.rand_state(nr, n); s = DensityMatrix(v); ref = np.outer(v, v.conj()); close(s.rho, ref, "construction")
    if r.random() < .3: rho = rho_ok(rand_rho(r, nr, n)); keep = rho.copy(); s = DensityMatrix(rho); s.evolve_single(Ops.H, 0); s = DensityMatrix(rho); ref = rho.copy(); close(rho, keep, "the data is modified")
    for _ in range(10):
        ref = step(r, nr, s, ref, r.choice(OPS)); t = abs(np.trace(ref))
        if t < 1e-4 or t > 1e4: break

@P.bounded("agreement with the state vector", [F + "DensityMatrix." + m for m in ("evolve_single", "evolve", "entangle", "swap", "add_nodes", "permute", "expectation_single", "fidelity")], cases, "the same unitary history on both representations", quick=5, thorough=60)
def both(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    v = M.rand_state(nr, n); a = Statevector(v); b = DensityMatrix(a)
    for _ in range(8):
        n = a.nqubit; u = r.randrange(6)
        if u == 0: q = r.randrange(n); op = M.rand_unitary(nr, 2); args = ("evolve_single", op, q)
        elif u == 1: k = r.randrange(1, min(3, n) + 1); args = ("evolve", M.rand_unitary(nr, 2 ** k), r.sample(range(n), k))
        elif u in (2, 3) and n > 1: args = (("entangle", "swap")[u - 2], tuple(r.sample(range(n), 2)))
        elif u == 4 and n < 5: args = ("add_nodes", 1, r.choice(G.STATES))
        else: p = list(range(n)); r.shuffle(p); args = ("permute", p)
        getattr(a, args[0])(*args[1:]); getattr(b, args[0])(*args[1:])
        close(b.rho, np.outer(a.flatten(), a.flatten().conj()), f"{args[0]} {args[-1] if args[0] != 'add_nodes' else ''} on {n} qubits")
        assert math.isclose(b.fidelity(a), 1, abs_tol=1e-9)
        q = r.randrange(a.nqubit); op = M.rand_mat(nr, 2); close(b.expectation_single(op, q), a.expectation_single(op, q), f"expectation_single {q} of {a.nqubit}")

@P.bounded("rejections", [F + "DensityMatrix.__init__", F + "DensityMatrix.evolve", F + "DensityMatrix.evolve_single", F + "DensityMatrix.apply_channel"], cases, "inadmissible matrices, operators and qubits", quick=3, thorough=30)
def rej(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    rho = rho_ok(rand_rho(r, nr, n)); s = DensityMatrix(rho)
    def rejected(f, exc=(ValueError, AssertionError, TypeError)):
        try: f()
        except exc: pass
        else: raise AssertionError("accepted")
        close(s.rho, rho, "a rejected operation changes the state")
    rejected(lambda: DensityMatrix(rho * 1.5)); rejected(lambda: DensityMatrix(rho, nqubit=n + 1)); rejected(lambda: DensityMatrix(rho[:, :-1])); rejected(lambda: DensityMatrix(np.eye(3) / 3)); rejected(lambda: DensityMatrix(rho, nqubit=-1))
    bad = rho.copy(); bad[0, -1] += .3j; rejected(lambda: DensityMatrix(bad))
    neg = np.diag([1.5, -.5] + [0] * (2 ** n - 2)) if n else None; rejected(lambda: DensityMatrix(neg))
    for q in (-1, n):
        rejected(lambda: s.evolve_single(Ops.X, q)); rejected(lambda: s.evolve(Ops.X, [q])); rejected(lambda: s.expectation_single(Ops.X, q)); rejected(lambda: s.ptrace([q]))
    rejected(lambda: s.evolve_single(M.CZ, 0)); rejected(lambda: s.evolve(M.CZ, [0])); rejected(lambda: s.evolve(M.CZ, [0, 0])); rejected(lambda: s.evolve(np.eye(3), [0])); rejected(lambda: s.evolve(np.ones((2, 4)), [0])); rejected(lambda: s.permute(list(range(n))[:-1])); rejected(lambda: s.apply_channel([Ops.X], [0]))
