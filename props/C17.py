from __future__ import annotations
import itertools, math, random
import numpy as np
from gv import boot, gen as G, mats as M  # noqa: F401
from gv import cutloop as CL, extract as X, tensor as T
from gv.core import Prop, Unfit, need
from props import _kernels as K
from graphix.clifford import Clifford
from graphix.ops import Ops
from graphix.parameter import Placeholder
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.states import BasicStates, PlanarState
import graphix.sim.statevec as sv

F = "graphix/sim/statevec.py:"
P = Prop("C17", "proof",
    "The kernels carry contracts for every number of qubits (up to 40, the size of the index space), every qubit, operator and vector; loops are cut "
    "by invariants on the whole array, parallel loops must own the cells they touch.  The methods around them preserve the "
    "representation invariant (array, capacity, number of qubits), call the kernels within their preconditions and refuse qubits that do not exist; whole histories are "
    "also compared with dense linear algebra.",
    ["indices are 64-bit machine integers; amplitudes are elements of a commutative *-ring (floating point rounding is ignored)",
     "2**nqubit with nqubit <= 40", "the contract is on the Python source of the kernels; numba's compilation is exercised by one bounded unit"],
    ["numba compiles the kernels as CPython would execute them", "numpy einsum, kron, transpose, dot"])

for name, fns in (("entangle", "_entangle_jit"), ("evolve_single", "_evolve_single_jit _compute_op_psi"), ("swap", "_swap_jit"), ("tensor", "_tensor_jit"),
                  ("add_default", "_add_default_node_jit"), ("expectation", "_expectation_single_jit _compute_psic_op_psi"),
                  ("evolve_norm", "_evolve_single_and_compute_norm _compute_op_psi_a2"), ("scale", "_scale_psi _scale_psi_kernel"), ("project", "_project_qubit_jit")):
    P.proof(name + " kernel", [F + x for x in fns.split()], "z3")(getattr(K, name))

# -- methods on tensors with symbolic axes ---------------------------------------------------------------------------
z3 = boot.z3()
def S(j): return ("psi", False, "q", j)
class Buffer:
    """the preallocated array: the first 2**n entries are the state"""
    def __init__(s, ten): s.ten, s.written = ten, 0
    def valid(s, k, what):
        if not (isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1)): raise Unfit("slice")
        stop = k.stop if isinstance(k.stop, T.Pow2) else None
        if stop is None: raise Unfit("slice")
        CL.cur().prove(f"{what} exactly the valid entries", stop.e == s.ten.rank)
    def __getitem__(s, k): s.valid(k, "reads"); return s.ten
    def __setitem__(s, k, v):
        s.valid(k, "writes")
        if not isinstance(v, T.Ten): raise Unfit("written value")
        CL.cur().prove("as many entries are written as the state has", v.rank == s.ten.rank if isinstance(v.rows, str) else False)
        s.ten = v; s.written += 1
    def __getattr__(s, a): raise Unfit(f"buffer: {a}")

def vector(eng, methods, legs, n):
    class SV(Statevector):
        def __init__(self): pass
    env = dict(T.ENV, len=lambda x: T.Pow2(x.rank) if isinstance(x, T.Ten) and isinstance(x.rows, str) else len(x))
    for m in ("flatten", *methods):
        setattr(SV, m, X.rebind(getattr(Statevector, m), **{**env, **(methods[m] if m in methods else {})}))
    SV.psi = property(X.rebind(Statevector.psi, **env))
    v = SV(); v._psi = Buffer(T.Ten(legs, n, rows="flat")); v._nqubit = T.N(n); v._max_qubits = None
    return v

# -- the object around the kernels: representation invariant, preconditions of the kernels ------------------------------------
class N(CL.ZI):
    """A number of qubits; 1 << N is a size."""
    def __rlshift__(self, o):
        if o != 1: raise Unfit("shift")
        return Size(self.e)
    def __rpow__(self, o):
        if o != 2: raise Unfit("power")
        return Size(self.e)
    def __add__(self, o): return N(self.e + CL.ZI.of(o))
    __radd__ = __add__
    def __sub__(self, o): return N(self.e - CL.ZI.of(o))
class Size:
    """2**e"""
    def __init__(self, e): self.e = e
    def __eq__(self, o): return CL.SBool(self.e == o.e) if isinstance(o, Size) else NotImplemented
    def __lt__(self, o): return CL.SBool(self.e < o.e)
    def __le__(self, o): return CL.SBool(self.e <= o.e)
    def __gt__(self, o): return CL.SBool(self.e > o.e)
    def __ge__(self, o): return CL.SBool(self.e >= o.e)
    __hash__ = None
class Buf:
    """Array of 2**e entries, of which the first 2**known are those of `tok`."""
    dtype = "dtype"
    def __init__(self, e, tok=None, known=None): self.e, self.tok, self.known = e, tok, known
    def _stop(self, k):
        if not (isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and isinstance(k.stop, Size)): raise Unfit("slice")
        CL.cur().prove("slice within the array", k.stop.e <= self.e)
        return k.stop.e
    def __getitem__(self, k): return View(self, self._stop(k))
    def __setitem__(self, k, v):
        e = self._stop(k)
        if isinstance(v, View): v = Buf(v.e, v.buf.tok, v.e)
        if not isinstance(v, Buf) or self.tok is not None: raise Unfit("assignment to a part of the array")
        CL.cur().prove("as many entries as the slice has", v.e == e)
        self.tok, self.known = v.tok, z3.If(v.known < e, v.known, e)
    def copy(self): return Buf(self.e, self.tok, self.known)
    def __getattr__(self, a): raise Unfit(f"array: {a}")
class View:
    def __init__(self, buf, e): self.buf, self.e = buf, e
    def __getattr__(self, a): raise Unfit(f"view: {a}")
class NpE:
    @staticmethod
    def empty(n, dtype=None):
        if not isinstance(n, Size): raise Unfit("np.empty")
        return Buf(n.e)
    zeros = empty
    def __getattr__(self, a): raise Unfit(f"np.{a}")

METHODS = ("ensure_capacity", "flatten", "add_nodes", "entangle", "evolve_single", "expectation_single", "project_qubit", "swap", "tensor", "_check_bounds")
def subject(eng, log, extra=()):
    """an arbitrary state that satisfies the representation invariant, with the real methods; kernels are replaced by their contracts"""
    def state_of(psi, n, grow=0):
        """precondition: the buffer holds the state on n qubits and has room for `grow` more"""
        if isinstance(psi, View): psi = psi.buf
        if not isinstance(psi, Buf): raise Unfit("first argument of a kernel")
        n = CL.ZI.of(n)
        eng.prove("the kernel is given an array that holds the state", psi.tok is not None and psi.known >= n)
        eng.prove("the kernel stays within the array", n + grow <= psi.e)
        return psi, n
    def kernel(name, pars, grow=0):
        def k(*a, **kw):
            if len(a) > len(pars): raise Unfit(f"{name}: {len(a)} arguments")
            b = dict(zip(pars, a), **kw)
            psi, n = state_of(b["psi"], b["nqubit"], grow if not callable(grow) else grow(b))
            log.append((name, b, psi, n))
            if name == "_project_qubit_jit": return N(n - 1)
            return ("result of", name)
        return k
    env = dict(np=NpE(), len=lambda x: Size(x.e) if isinstance(x, (Buf, View)) else len(x), _cast_op=lambda op: ("cast", op),
        _entangle_jit=kernel("_entangle_jit", ("psi", "nqubit", "a", "b")), _swap_jit=kernel("_swap_jit", ("psi", "nqubit", "a", "b")),
        _evolve_single_jit=kernel("_evolve_single_jit", ("psi", "op", "nqubit", "q")), _expectation_single_jit=kernel("_expectation_single_jit", ("psi", "op", "nqubit", "q")),
        _project_qubit_jit=kernel("_project_qubit_jit", ("psi", "op", "nqubit", "q", "atol")), _add_default_node_jit=kernel("_add_default_node_jit", ("psi", "nqubit"), 1),
        _tensor_jit=kernel("_tensor_jit", ("psi", "other", "nqubit", "nqubit_other"), lambda b: CL.ZI.of(b["nqubit_other"])))
    class SV(Statevector):
        def __init__(self, data=None, nqubit=None, max_qubits=None):
            if max_qubits is not None: raise Unfit("capacity of the added state")
            log.append(("new", data, nqubit)); fresh_state(self, "added", nqubit if isinstance(nqubit, N) else None)
        def __getattr__(self, a): raise Unfit(f"attribute {a}")
    def fresh_state(v, tok, n=None):
        e, c = z3.Int(eng.fresh("n")), z3.Int(eng.fresh("capacity"))
        if n is not None: eng.assume(e == n.e)
        eng.assume(z3.And(e >= 0, c >= e)); b = Buf(c, tok, c)
        v.__dict__.update(_psi=b, _nqubit=N(e), _max_qubits=N(c))
        return v
    env["Statevector"] = SV
    for m in METHODS: setattr(SV, m, X.rebind(getattr(Statevector, m), **env))
    for m in ("psi", "nqubit", "max_qubits"): setattr(SV, m, property(X.rebind(getattr(Statevector, m), **env)))
    return SV, fresh_state(SV.__new__(SV), "state")

def sound(eng, v, n):
    """representation invariant, with n qubits"""
    if not isinstance(v._psi, Buf): raise Unfit("array")
    eng.prove("the number of qubits is up to date", CL.ZI.of(v._nqubit) == n)
    eng.prove("the array has the size of the capacity", CL.ZI.of(v._max_qubits) == v._psi.e)
    eng.prove("the state fits in its array", z3.And(n >= 0, n <= v._psi.e))

@P.proof("methods around the kernels", [F + "Statevector." + m for m in (*METHODS, "psi")], "z3 (any number of qubits, any capacity)")
def around(ob):
    def grow(eng):
        SV, v = subject(eng, []); n, c, b = v._nqubit.e, v._max_qubits.e, v._psi
        r = z3.Int(eng.fresh("required")); eng.assume(r >= 0)
        v.ensure_capacity(N(r)); sound(eng, v, n)
        eng.prove("the capacity is at least the one required", v._psi.e >= r); eng.prove("the capacity does not shrink", v._psi.e >= c)
        eng.prove("the state is kept", z3.And(v._psi.known >= n) if v._psi.tok == "state" else False)
        eng.covered.add("grown" if v._psi is not b else "enough")
    CL.attempt(ob, "ensure_capacity", grow).close(["grown", "enough"])
    def view(eng):
        SV, v = subject(eng, []); n, b = v._nqubit.e, v._psi
        for what, r in (("psi", v.psi), ("flatten", v.flatten())):
            if not isinstance(r, View): raise Unfit(what)
            eng.prove(f"{what} is the valid part of the array", z3.And(r.e == n) if r.buf is b else False)
        eng.prove("nqubit and max_qubits", z3.And(CL.ZI.of(v.nqubit) == n, CL.ZI.of(v.max_qubits) == b.e)); eng.covered.add("done")
    CL.attempt(ob, "psi, flatten", view).close(["done"])
    def one(name, kern, call, two=False, bounds=True):
        def h(eng):
            log = []; SV, v = subject(eng, log); n, b = v._nqubit.e, v._psi
            qs = [z3.Int(eng.fresh("q")) for _ in range(2 if two else 1)]
            inside = z3.And([z3.And(q >= 0, q < n) for q in qs])
            if not bounds: eng.assume(inside)
            try:
                r = call(v, *[N(q) for q in qs])
            except IndexError:
                eng.prove("only qubits that do not exist are refused", z3.Not(inside)); eng.prove("a refused call changes nothing", not log and v._psi is b)
                sound(eng, v, n); eng.covered.add("refused"); return
            eng.prove("qubits that do not exist are refused", inside)
            if len(log) != 1 or log[0][0] != kern: raise Unfit(f"{kern} is not called exactly once")
            _k, a, psi, m = log[0]
            eng.prove("the array of this state", psi is v._psi); eng.prove("on all the qubits", m == n)
            if "op" in a: eng.prove("the operator given", a["op"] == ("cast", "op"))
            if two:
                x, y = CL.ZI.of(a["a"]), CL.ZI.of(a["b"])
                eng.prove("the qubits given", z3.Or(z3.And(x == qs[0], y == qs[1]), z3.And(x == qs[1], y == qs[0])))
            else: eng.prove("the qubit given", CL.ZI.of(a["q"]) == qs[0])
            if name == "expectation_single": eng.prove("the value of the kernel is returned", r == ("result of", kern))
            sound(eng, v, n - 1 if name == "project_qubit" else n); eng.covered.add("done")
        CL.attempt(ob, name, h).close(["done", "refused"] if bounds else ["done"])
    one("entangle", "_entangle_jit", lambda v, a, b: v.entangle((a, b)), two=True)
    one("evolve_single", "_evolve_single_jit", lambda v, q: v.evolve_single("op", q))
    one("expectation_single", "_expectation_single_jit", lambda v, q: v.expectation_single("op", q))
    one("project_qubit", "_project_qubit_jit", lambda v, q: v.project_qubit("op", q))
    one("swap", "_swap_jit", lambda v, a, b: v.swap((a, b)), two=True, bounds=False)
    def tensor(eng):
        log = []; SV, v = subject(eng, log); w = SV(); log.clear()
        n, m, b = v._nqubit.e, w._nqubit.e, w._psi
        v.tensor(w)
        if len(log) != 1 or log[0][0] != "_tensor_jit": raise Unfit("_tensor_jit is not called exactly once")
        _k, a, psi, k = log[0]
        eng.prove("the array of this state", psi is v._psi); eng.prove("numbers of qubits", z3.And(k == n, CL.ZI.of(a["nqubit_other"]) == m))
        o = a["other"]
        eng.prove("the array of the other state", (isinstance(o, View) and o.buf is b and CL.valid(eng, o.e >= m)) or o is b)
        sound(eng, v, n + m); sound(eng, w, m); eng.prove("the other state is not touched", w._psi is b); eng.covered.add("done")
    CL.attempt(ob, "tensor", tensor).close(["done"])
    for plus, k in ((True, 1), (True, 2), (False, 1), (False, 3)):
        def add(eng):
            log = []; SV, v = subject(eng, log); n = v._nqubit.e
            data = BasicStates.PLUS if plus else "data"
            kk = N(z3.Int(eng.fresh("k"))); eng.assume(kk.e == k)
            v.add_nodes(kk if eng.choose() else k, data)
            calls = [x for x in log if x[0].endswith("_jit")]
            if len(calls) != 1: raise Unfit("number of kernels called")
            name, a, psi, m = calls[0]
            eng.prove("the array of this state", psi is v._psi); eng.prove("on all the qubits", m == n)
            if name == "_add_default_node_jit": eng.prove("only one |+> is added this way", plus and k == 1)
            elif name == "_tensor_jit":
                new = [x for x in log if x[0] == "new"]
                if len(new) != 1: raise Unfit("added state")
                eng.prove("the added state has the data given", new[0][1] is data); eng.prove("and the size given", CL.ZI.of(new[0][2]) == k)
                o = a["other"]; ob_ = o.buf if isinstance(o, View) else o
                eng.prove("it is the one that is multiplied", ob_.tok == "added")
            else: raise Unfit(name)
            if name == "_add_default_node_jit": sound(eng, v, n + 1)
            else: sound(eng, v, n + CL.ZI.of(a["nqubit_other"]))
            eng.covered.add("done")
        CL.attempt(ob, f"add_nodes({k} {'plus' if plus else 'data'})", add).close(["done"])

@P.proof("operators on several qubits", [F + "Statevector.evolve", F + "Statevector.psi", F + "Statevector.flatten"], "z3 (tensors with symbolic axes)")
def several(ob):
    for k in (1, 2, 3, 4):
        def h(eng):
            n, u = z3.Int(eng.fresh("n")), z3.Int(eng.fresh("u")); q = [z3.Int(eng.fresh("q")) for _ in range(k)]
            for x in (*q, u): eng.assume(z3.And(x >= 0, x < n))
            eng.assume(z3.And(n >= k, z3.Distinct(*q, u)))
            v = vector(eng, {"evolve": {}}, {S(j): x for j, x in enumerate(q)} | {S("u"): u}, n)
            v.evolve(T.operator("op", k), tuple(T.N(x) for x in q) if k % 2 else [T.N(x) for x in q])
            t = v._psi.ten; want = {("op", False, "out", j): x for j, x in enumerate(q)} | {S("u"): u}
            eng.prove("the state is written once", v._psi.written == 1)
            eng.prove("exactly the axes of the targets meet the inputs of the operator, in order", {frozenset(p) for p in t.pairs} == {frozenset((S(j), ("op", False, "in", j))) for j in range(k)} and len(t.pairs) == k)
            eng.prove("the axes of the result", set(t.legs) == set(want))
            for l, p in want.items():
                if l in t.legs: eng.prove("outputs replace their targets and other axes stay", t.legs[l] == p)
            eng.prove("the number of qubits is unchanged", z3.And(t.rank == n, v._nqubit.e == n)); eng.covered.add("done")
        CL.attempt(ob, f"evolve, {k} targets", h).close(["done"])

@P.proof("permutation of qubits", [F + "Statevector.permute"], "z3 (tensors with symbolic axes)")
def permuted(ob):
    def h(eng):
        n, t = z3.Int(eng.fresh("n")), z3.Int(eng.fresh("t")); p = z3.Function("perm", z3.IntSort(), z3.IntSort()); seen = []
        eng.assume(z3.And(n >= 1, t >= 0, t < n, p(t) >= 0, p(t) < n))
        class Perm:
            def __iter__(self): yield T.Mark(p(t), t, n)
            def __getattr__(self, a): raise Unfit(f"permutation: {a}")
        perm = Perm()
        v = vector(eng, {"permute": dict(_check_permutation=lambda x, m: seen.append((x, m)))}, {S(0): p(t)}, n)
        v.permute(perm); r = v._psi.ten
        eng.prove("the permutation is checked against the number of qubits", len(seen) == 1 and seen[0][0] is perm and T.valid(T.ZI.of(seen[0][1]) == n))
        eng.prove("qubit t of the result is qubit permutation[t]", z3.And(r.legs[S(0)] == t, r.rank == n) if set(r.legs) == {S(0)} and not r.pairs else False)
        eng.prove("the state is written once", v._psi.written == 1); eng.covered.add("done")
    CL.attempt(ob, "permute", h).close(["done"])

@P.proof("expectation values and fidelity", [F + "Statevector.expectation_value", F + "Statevector.fidelity", F + "Statevector.isclose"], "evaluation (opaque arrays)")
def values(ob):
    log = []
    class SV(Statevector):
        def __init__(self, data=None, nqubit=None, max_qubits=None): self.x = data
        def flatten(self): return self.x
        psi = property(lambda self: self.x)
        def evolve(self, op, q): log.append((self, op, q)); self.x = T.Arr(("evolve", self.x.val, op, q))
    class Np(T.NumpyA):
        @staticmethod
        def abs(x): return T.Arr(("abs", x.val))
    T.Arr.__pow__ = lambda s, e: T.Arr(("pow", s.val, e))
    try:
        env = dict(Statevector=SV, np=Np(), complex=lambda x: x, float=lambda x: x)
        a = SV(T.Arr("a")); r = X.rebind(Statevector.expectation_value, **env)(a, "op", "qs")
        ok = {("dot", ("conj", "a"), ("evolve", "a", "op", "qs")), ("vdot", "a", ("evolve", "a", "op", "qs"))}
        ob.structural("expectation_value is <psi| op psi>", r.val in ok)
        ob.structural("a copy is evolved", len(log) == 1 and log[0][0] is not a and a.x.val == "a")
        b = SV(T.Arr("b")); r = X.rebind(Statevector.fidelity, **env)(a, b)
        inner = [("dot", ("conj", "a"), "b"), ("dot", ("conj", "b"), "a"), ("vdot", "a", "b"), ("vdot", "b", "a")]
        ob.structural("fidelity is |<a|b>|^2", r.val in [("pow", ("abs", i), 2) for i in inner] and a.x.val == "a" and b.x.val == "b")
    finally: del T.Arr.__pow__
    got = []
    class Math:
        @staticmethod
        def isclose(*x, **k): got.append((x, k)); return "verdict"
    SV.fidelity = lambda self, o: "f" if o is b else None
    r = X.rebind(Statevector.isclose, math=Math)(a, b, rtol="r", atol="t")
    ob.structural("isclose compares the fidelity with 1 within the tolerances", r == "verdict" and got in ([((x, y), dict(rel_tol="r", abs_tol="t"))] for x, y in (("f", 1), (1, "f"))))

@P.proof("construction", [F + "Statevector.__init__", F + "Statevector.max_qubits", F + "Statevector.ensure_capacity", F + "StatevectorBackend.with_capacity"], "evaluation: every kind of data, sizes and capacities up to 4 qubits; generic amplitudes")
def construction_unit(ob):
    """The vector is a product of distinct primes (or generic numbers), so that an entry in a wrong place is seen."""
    from graphix.states import State
    primes = iter([2, 3, 5, 7, 11, 13, 17, 19])
    class St(State):
        def __init__(self): self.v = np.array([next(primes), next(primes)], dtype=np.complex128)
        def to_statevector_numpy(self): return self.v
        def to_statevector(self): return self.v
        def to_densitymatrix(self): raise Unfit("density matrix of a state")
    sts = [St() for _ in range(4)]
    def make(*a, **k):
        try: return Statevector(*a, **k)
        except (ValueError, TypeError) as e: return e
    def right(r, want, n, cap):
        if not isinstance(r, Statevector): return False
        if r.nqubit == n and not (r._psi.shape == (1 << cap,) and r._psi.dtype == np.complex128): ob.structural("the array has the size of the capacity", False)
        return r.nqubit == n and r.max_qubits == cap and np.array_equal(r.psi, want)
    gen = np.random.default_rng(5)
    def vec(n):
        v = np.array([complex(1 + i, 2 * i - 3) for i in range(1 << n)]); return v / np.linalg.norm(v)
    sizes = (None, 0, 1, 2, 3, 4)
    def cap_of(n, mx): return None if mx is not None and mx < n else n if mx is None else mx
    for nq, mx in itertools.product(sizes, repeat=2):
        for k in range(5):
            want = np.array([1 + 0j])
            for s in sts[:k]: want = np.array([a * b for a in want for b in s.v])
            bad = nq not in (None, k) or cap_of(k, mx) is None
            for form in (list, tuple, iter):
                before = [s.v.copy() for s in sts]; r = make(form(sts[:k]), nqubit=nq, max_qubits=mx)
                ob.check(f"{k} states ({form.__name__}), nqubit={nq}, max_qubits={mx}: {'refused' if bad else 'their product, first qubit first'}", isinstance(r, ValueError) if bad else right(r, want, k, cap_of(k, mx)))
                ob.structural("the states are not changed", all(np.array_equal(s.v, b) for s, b in zip(sts, before)))
        n = 1 if nq is None else nq; want = np.array([1 + 0j])
        for _ in range(n): want = np.array([a * b for a in want for b in sts[0].v])
        r = make(sts[0], nqubit=nq, max_qubits=mx); bad = cap_of(n, mx) is None
        ob.check(f"one state, nqubit={nq}, max_qubits={mx}: {'refused' if bad else 'on every qubit'}", isinstance(r, ValueError) if bad else right(r, want, n, cap_of(n, mx)))
        for n in range(4):
            v = vec(n); bad = nq not in (None, n) or cap_of(n, mx) is None
            for data in (v, list(v), tuple(complex(x) for x in v)):
                r = make(data, nqubit=nq, max_qubits=mx)
                ob.check(f"{1 << n} amplitudes ({type(data).__name__}), nqubit={nq}, max_qubits={mx}: {'refused' if bad else 'taken as they are'}", isinstance(r, ValueError) if bad else right(r, v, n, cap_of(n, mx)))
                if not bad: ob.check("memory of the caller is not shared", not np.shares_memory(r.psi, data) if isinstance(data, np.ndarray) else True)
            for cap in range(n, 5):
                src = Statevector(v, max_qubits=cap); full = src._psi; keep = full[:1 << n].copy()
                bad = nq not in (None, n) or cap_of(n, mx) is None
                r = make(src, nqubit=nq, max_qubits=mx)
                ob.check(f"a state vector of {n} qubits, capacity {cap}, nqubit={nq}, max_qubits={mx}: {'refused' if bad else 'a copy of this capacity'}", isinstance(r, ValueError) if bad else right(r, v, n, cap if mx is None else mx))
                ob.check("the original is not changed nor shared", src.nqubit == n and src.max_qubits == cap and np.array_equal(src.psi, keep) and (bad or not np.shares_memory(r.psi, src.psi)))
    bad = [("not normalized", [1, 1]), ("not normalized", [0, 0]), ("three amplitudes", [1, 0, 0]), ("five", [1, 0, 0, 0, 0]), ("mixed", [sts[0], 1]), ("text", ["a", "b"]), ("a number", 5), ("rows", [[1, 0], [0, 0]])]
    for name, data in bad: ob.structural(f"{name}: refused", isinstance(make(data), (ValueError, TypeError)))
    for k in (dict(nqubit=-1), dict(max_qubits=-1)): ob.structural(f"{k}: refused", isinstance(make(**k), ValueError))
    for cap in range(4):
        b = StatevectorBackend.with_capacity(cap); ob.structural(f"backend of capacity {cap}: no qubits", right(b.state, [1], 0, cap))
        for n in range(cap + 1):
            src = Statevector(vec(n)); b = StatevectorBackend.with_capacity(cap, src); ob.structural(f"backend of capacity {cap} from {n} qubits: a copy", right(b.state, vec(n), n, cap) and not np.shares_memory(b.state._psi, src._psi))

@P.proof("output of amplitudes", [F + "Statevector." + m for m in ("_to_dict_map", "to_dict", "to_prob_dict")] + [F + x for x in ("_format_encoding", "_check_permutation", "_cast_op")], "evaluation: every index of up to 6 qubits, every pattern of negligible amplitudes of up to 3 qubits")
def output_unit(ob):
    fe, cp, co = need(sv, "_format_encoding"), need(sv, "_check_permutation"), need(sv, "_cast_op")
    for n in range(1, 7):
        bits = {i: [(i >> (n - 1 - q)) & 1 for q in range(n)] for i in range(1 << n)}
        ob.structural(f"{n} qubits: MSB is the first qubit first, LSB the reverse", all(fe(n, i, "MSB") == "".join(map(str, b)) and fe(n, i, "LSB") == "".join(map(str, b[::-1])) for i, b in bits.items()))
    for n in range(4):
        for mask in itertools.product((0, 1), repeat=1 << n):
            v = np.array([complex(i + 1, i - 2) if m else 1e-9j for i, m in enumerate(mask)]); s = Statevector.__new__(Statevector); s._psi, s._nqubit, s._max_qubits = np.concatenate([v, [7j] * (1 << n)]), n, n + 1
            keys = [format(i, f"0{n}b") if n else "0" for i, m in enumerate(mask) if m]; amps = [x for x, m in zip(v, mask) if m]
            for enc in ("MSB", "LSB"):
                ks = [k[::-1] if enc == "LSB" else k for k in keys]
                d, p = s.to_dict(enc), s.to_prob_dict(enc)
                ob.check(f"{n} qubits, amplitudes {mask}, {enc}: exactly those that are not negligible, with their probabilities", list(d) == ks == list(p) and all(d[k] == a for k, a in zip(ks, amps)) and np.allclose([p[k] for k in ks], [abs(a) ** 2 for a in amps]))
        for perm in itertools.chain(*(itertools.product(range(-1, n + 1), repeat=k) for k in range(n + 2))):
            try: cp(list(perm), n); ok = True
            except ValueError: ok = False
            ob.structural(f"{perm} on {n} qubits: accepted exactly if it is a permutation", ok == (sorted(perm) == list(range(n))))
    for dt in (np.complex128, np.float64, np.int64):
        a = np.array([[1, 2], [3, 4]], dtype=dt); a.setflags(write=False); r = co(a)
        ob.structural(f"operator of {np.dtype(dt)}: a writable complex copy", np.array_equal(r, a) and r.dtype == np.complex128 and r.flags.writeable and not np.shares_memory(r, a))
    try: co(np.array([[Placeholder("x"), 0], [0, 1]], dtype=np.object_)); ok = False
    except TypeError: ok = True
    ob.structural("a symbolic operator is refused", ok)

def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape and np.allclose(a, b, atol=1e-9), f"{what}: {a.tolist()} instead of {b.tolist()}"

def fresh(nr, n, spare): return Statevector(M.rand_state(nr, n), max_qubits=n + spare)

def ops(r, nr, d):
    """A random operator, not necessarily unitary, with a variety of memory layouts and dtypes."""
    u = r.random()
    if d == 2 and u < .3: return r.choice([Ops.X, Ops.Y, Ops.Z, Ops.H, Ops.S, Clifford(r.randrange(24)).matrix])
    m = M.rand_mat(nr, d) if u < .7 else M.rand_unitary(nr, d)
    if u < .4: m = np.asfortranarray(m)
    if .9 < u: m = np.round(m.real * 2)
    if .85 < u < .9: m = np.eye(d, dtype=int)[::-1]
    return m

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([1, 1, 2, 3, 3, 4, 5]))

OPS = ["evolve_single", "evolve", "entangle", "swap", "add", "tensor", "project", "permute", "expectation", "copy", "capacity"]

def step(r, nr, s, ref, kind):
    n = s.nqubit
    if kind in ("evolve_single", "project", "expectation") and n == 0 or kind in ("entangle", "swap") and n < 2 or kind in ("add", "tensor") and n > 6: return s, ref
    d = f"{kind} on {n} qubits"
    if kind == "evolve_single":
        q = r.randrange(n); op = M.rand_unitary(nr, 2) if r.random() < .5 else ops(r, nr, 2); keep = np.array(op)
        s.evolve_single(op, q); assert np.array_equal(keep, op), "the operator is modified"
        ref = M.embed(op, [q], n) @ ref
    elif kind == "evolve":
        k = r.randrange(0, min(n, 4) + 1); qs = r.sample(range(n), k); op = ops(r, nr, 2 ** k); keep = np.array(op)
        arg = r.choice([list, tuple, np.array])(qs) if k else qs
        if k == 0: return s, ref
        s.evolve(op, arg); assert np.array_equal(keep, op)
        ref = M.embed(op, qs, n) @ ref; d += f" {qs}"
    elif kind == "entangle":
        qs = tuple(r.sample(range(n), 2)); s.entangle(qs); ref = M.embed(M.CZ, qs, n) @ ref; d += f" {qs}"
    elif kind == "swap":
        qs = tuple(r.sample(range(n), 2)) if r.random() < .9 else (r.randrange(n),) * 2
        s.swap(qs); ref = M.embed(M.SWAP, qs, n) @ ref if qs[0] != qs[1] else ref; d += f" {qs}"
    elif kind == "add":
        u = r.random()
        if u < .4: s.add_nodes(1, BasicStates.PLUS); v = np.array([M.S2, M.S2])
        elif u < .6:
            k = r.randrange(0, 3); st = r.choice(G.STATES); s.add_nodes(k, st); v = M.kron(*[st.to_statevector_numpy().reshape(-1, 1)] * k).ravel()
        elif u < .8:
            st = [r.choice(G.STATES) if r.random() < .7 else PlanarState(r.choice([*__import__("graphix").fundamentals.Plane]), r.uniform(0, 2)) for _ in range(r.randrange(0, 3))]
            s.add_nodes(len(st), st); v = M.kron(*[x.to_statevector_numpy().reshape(-1, 1) for x in st]).ravel()
        else:
            k = r.randrange(0, 3); v = M.rand_state(nr, k); keep = v.copy(); s.add_nodes(k, v); assert np.array_equal(v, keep)
        ref = np.kron(ref, v)
    elif kind == "tensor":
        k = r.randrange(0, 3); o = fresh(nr, k, r.randrange(3)); keep = o.flatten().copy(); s.tensor(o)
        close(o.flatten(), keep, "tensor modifies its argument"); ref = np.kron(ref, keep)
        o._psi[:] = 7 if r.random() < .5 else o._psi
    elif kind == "project":
        q = r.randrange(n)
        v = nr.normal(size=2) + 1j * nr.normal(size=2)
        if r.random() < .4: v = r.choice([np.array([1, 0]), np.array([0, 1]), np.array([1, 1]), np.array([1, -1j])]).astype(complex)
        v = v / np.linalg.norm(v); op = np.outer(v, v.conj())
        t = np.tensordot(v.conj(), ref.reshape((2,) * n), axes=(0, q)).ravel(); nrm = np.linalg.norm(t)
        if nrm < 1e-4: return s, ref
        s.project_qubit(op, q); assert s.nqubit == n - 1
        # P = |v><v|: the kept branch carries v[b] as a phase
        got = s.flatten(); b = 0 if abs(v[0]) ** 2 * nrm ** 2 > 1e-10 else 1
        ref = t / nrm * (v[b] / abs(v[b])); d += f" qubit {q} onto {v}"
    elif kind == "permute":
        p = list(range(n)); r.shuffle(p); s.permute(p if r.random() < .5 else tuple(p))
        ref = np.transpose(ref.reshape((2,) * n), p).ravel() if n else ref; d += f" {p}"
    elif kind == "expectation":
        keep = s.flatten().copy(); q = r.randrange(n); op = ops(r, nr, 2)
        unit = ref / np.linalg.norm(ref); u2 = Statevector(unit)
        close(u2.expectation_single(op, q), np.vdot(unit, M.embed(op, [q], n) @ unit), f"expectation_single qubit {q} of {n}")
        k = r.randrange(1, min(n, 3) + 1); qs = r.sample(range(n), k); op = ops(r, nr, 2 ** k)
        close(u2.expectation_value(op, qs), np.vdot(unit, M.embed(op, qs, n) @ unit), f"expectation_value {qs} of {n}")
        close(u2.flatten(), unit, "the expectation value modifies the state"); close(s.flatten(), keep, "aliasing")
    elif kind == "copy":
        old = s; cap = r.choice([None, s.nqubit + r.randrange(3)])
        s = Statevector(s, max_qubits=cap); assert s.nqubit == old.nqubit and (cap is None or s.max_qubits == cap) and len(s._psi) == 1 << s.max_qubits
        if old._psi.size: old._psi[:] = 3.0
    elif kind == "capacity":
        s.ensure_capacity(r.randrange(n + 3)); assert s.max_qubits >= n
    close(s.flatten(), ref, d)
    assert s.nqubit == int(math.log2(len(ref))) and len(s.psi) == len(ref) and s.max_qubits >= s.nqubit
    return s, ref

@P.bounded("histories of operations", [F + "Statevector." + m for m in ("add_nodes", "entangle", "evolve_single", "evolve", "expectation_single", "expectation_value", "project_qubit", "swap", "tensor", "permute", "ensure_capacity", "flatten", "psi", "_check_bounds")], cases, "random histories of 12 operations on up to 7 qubits with spare capacity", quick=10, thorough=120)
def hist(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    s = fresh(nr, n, r.randrange(3)); ref = s.flatten().copy()
    data = ref.copy(); t = Statevector(data); t.evolve_single(Ops.X, 0); close(data, ref, "the data passed to the constructor is modified")
    for _ in range(12):
        s, ref = step(r, nr, s, ref, r.choice(OPS))
        nrm = np.linalg.norm(ref)
        if nrm < 1e-3 or nrm > 1e3: break
        if abs(nrm - 1) > 1e-9 and s.nqubit: 
            s._psi[:len(ref)] /= nrm; ref = ref / nrm

@P.bounded("measures", [F + "Statevector.fidelity", F + "Statevector.isclose", F + "Statevector.to_dict", F + "Statevector.to_prob_dict", F + "_format_encoding"], cases, "random and sparse states up to 5 qubits", quick=4, thorough=40)
def meas(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    n = r.choice([0, n]) if r.random() < .2 else n
    v = M.rand_state(nr, n); w = M.rand_state(nr, n)
    if r.random() < .5:
        v = v * nr.integers(0, 2, size=2 ** n)
        if not np.any(v): v[r.randrange(2 ** n)] = 1
        v = v / np.linalg.norm(v)
    a, b = Statevector(v, max_qubits=n + r.randrange(2)), Statevector(w, max_qubits=n + r.randrange(2))
    close(a.fidelity(b), abs(np.vdot(v, w)) ** 2, "fidelity")
    assert a.isclose(Statevector(v * np.exp(1j * r.uniform(0, 6)))) and (a.isclose(b) == (abs(abs(np.vdot(v, w)) ** 2 - 1) < 1e-9))
    for enc in ("MSB", "LSB"):
        keys = {("".join(bits) if enc == "MSB" else "".join(bits)[::-1]): x for bits, x in zip(itertools.product("01", repeat=n), v)}
        want = {k: x for k, x in keys.items() if abs(x) > 1e-8} if n else {"0": v[0]}
        got = a.to_dict(enc); prob = a.to_prob_dict(enc)
        assert list(got) == list(want) and list(prob) == list(want), f"{enc}: {list(got)} instead of {list(want)}"
        close(list(got.values()), list(want.values()), "amplitudes"); close(list(prob.values()), [abs(x) ** 2 for x in want.values()], "probabilities")

@P.bounded("construction and rejections", [F + "Statevector.__init__", F + "_check_permutation", F + "_cast_op"], cases, "admissible and inadmissible data, sizes, indices and permutations", quick=4, thorough=40)
def init(case):
    seed, n = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    k = r.randrange(0, 4); arg = r.choice([None, k, k, r.randrange(-1, 5)]); cap = r.choice([None, None, r.randrange(-1, 6)])
    u = r.random()
    if u < .25: data = r.choice(G.STATES); m = 1 if arg is None else arg; ok = True; want = M.kron(*[data.to_statevector_numpy().reshape(-1, 1)] * max(m, 0)).ravel()
    elif u < .5:
        data = [r.choice(G.STATES) for _ in range(k)]; m = k; ok = arg in (None, k); want = M.kron(*[s.to_statevector_numpy().reshape(-1, 1) for s in data]).ravel()
        if r.random() < .3: data = tuple(data)
    elif u < .75:
        want = M.rand_state(nr, k); m = k; ok = arg in (None, k); data = want if r.random() < .5 else [complex(x) for x in want]
        if r.random() < .15: data = want * 1.1; ok = False
        elif r.random() < .15: data = np.ones(3) / math.sqrt(3); ok = False
    else:
        src = Statevector(M.rand_state(nr, k), max_qubits=k + r.randrange(3)); data = src; want = src.flatten().copy(); m = k; ok = arg in (None, k)
    if arg is not None and arg < 0 or cap is not None and cap < 0: ok = False
    if cap is not None and cap < m: ok = False
    d = f"Statevector({data!r}, nqubit={arg}, max_qubits={cap})"
    try: s = Statevector(data, nqubit=arg, max_qubits=cap)
    except ValueError:
        assert not ok, f"{d} is rejected"; return
    assert ok, f"{d} is accepted"
    close(s.flatten(), want, d); assert s.nqubit == m and s.max_qubits == (cap if cap is not None else getattr(data, "max_qubits", m)) and len(s._psi) == 1 << s.max_qubits, d
    s._psi[:] = 5
    close(src.flatten() if data is not None and isinstance(data, Statevector) else want, want, "memory is shared")
    t = Statevector(M.rand_state(nr, n)); keep = t.flatten().copy()
    def rejected(f, exc):
        try: f()
        except exc: pass
        else: raise AssertionError(f"accepted on {n} qubits")
        close(t.flatten(), keep, "a rejected operation changes the state")
    for q in (-1, n):
        rejected(lambda: t.evolve_single(Ops.X, q), IndexError); rejected(lambda: t.expectation_single(Ops.X, q), IndexError)
        rejected(lambda: t.project_qubit(np.diag([1., 0]), q), IndexError); rejected(lambda: t.entangle((0, q)), IndexError); rejected(lambda: t.entangle((q, 0)), IndexError)
    rejected(lambda: t.evolve_single(np.array([[Placeholder("a"), 0], [0, 1]], dtype=np.object_), 0), TypeError)
    p = list(range(n)); rejected(lambda: t.permute(p[:-1]), ValueError); rejected(lambda: t.permute([*p[:-1], n]), ValueError)
    z = Statevector([BasicStates.ONE] * n); 
    try: z.project_qubit(np.diag([1.0, 0.0]), n - 1)
    except RuntimeError: pass
    else: raise AssertionError("projection of |1> on |0> is accepted")

def big(rng, tier):
    for n in ((16, 17) if tier == "quick" else (16, 17, 18)):
        for q in (0, 1, n // 2, n - 2, n - 1): yield [n, q, rng.randrange(10 ** 6)]

@P.bounded("compiled kernels", [F + k for k in ("_entangle_jit", "_evolve_single_jit", "_expectation_single_jit", "_evolve_single_and_compute_norm", "_project_qubit_jit", "_swap_jit", "_tensor_jit", "_add_default_node_jit", "_scale_psi")], big, "16 and 17 qubits (parallel branch), 5 qubits each", quick=40, thorough=200, jit=True)
def compiled(case):
    n, q, seed = case
    r = random.Random(seed); nr = np.random.default_rng(seed)
    v = M.rand_state(nr, n); s = Statevector(v, max_qubits=n + 1); op = M.rand_unitary(nr, 2)
    t = v.reshape((2,) * n); q2 = r.choice([x for x in range(n) if x != q])
    ap = lambda o, t, q: np.moveaxis(np.tensordot(o, t, axes=(1, q)), 0, q)
    close(s.expectation_single(op, q), np.vdot(t, ap(op, t, q)), f"expectation {q} of {n}")
    s.evolve_single(op, q); t = ap(op, t, q); assert np.allclose(s.flatten(), t.ravel(), atol=1e-10), f"evolve_single {q} of {n}"
    s.entangle((q, q2)); t = t.copy(); ix = [slice(None)] * n; ix[q] = ix[q2] = 1; t[tuple(ix)] *= -1
    assert np.allclose(s.flatten(), t.ravel(), atol=1e-10), f"entangle {q} {q2} of {n}"
    s.swap((q, q2)); t = np.swapaxes(t, q, q2); assert np.allclose(s.flatten(), t.ravel(), atol=1e-10), f"swap {q} {q2} of {n}"
    s.add_nodes(1, BasicStates.PLUS); t = np.kron(t.ravel(), [M.S2, M.S2]).reshape((2,) * (n + 1)); assert np.allclose(s.flatten(), t.ravel(), atol=1e-10), f"add_nodes to {n}"
    w = nr.normal(size=2) + 1j * nr.normal(size=2); w /= np.linalg.norm(w)
    if r.random() < .3: w = np.array([0, 1], dtype=complex)
    s.project_qubit(np.outer(w, w.conj()), q); t = np.tensordot(w.conj(), t, axes=(0, q)); t = t / np.linalg.norm(t)
    b = 0 if abs(w[0]) > 1e-6 else 1; t = t * (w[b] / abs(w[b])); assert np.allclose(s.flatten(), t.ravel(), atol=1e-9), f"project {q} of {n + 1}"
    s.tensor(Statevector(BasicStates.ONE)); t = np.kron(t.ravel(), [0, 1]); assert np.allclose(s.flatten(), t, atol=1e-10), f"tensor to {n}"
