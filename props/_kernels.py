"""Contracts on the state-vector kernels (graphix/sim/statevec.py), for all sizes, qubits, operators, amplitudes."""
from __future__ import annotations
import math
from gv.core import need, Unfit
from gv.sym import (Engine, SArr, SMat, SI, SV, SBool, Loop, SRange, instrument, bvar, band, bor, implies, sv_equal, z3, W)
import graphix.sim.statevec as sv

NMAX = 40      # 2**40 amplitudes: 16 TiB; larger state vectors cannot exist
FILE = "graphix/sim/statevec.py:"

def pow2(e):
    e = SI.of(e)
    return SI(z3.BitVecVal(1, W) << e.e, e)

def sizes(eng, q=True):
    n = bvar("nqubit"); eng.assume(band(n >= 1, n <= NMAX))
    qq = None
    if q:
        qq = bvar("q"); eng.assume(band(qq >= 0, qq < n))
    return n, qq

def bit(x, pos):
    """bit `pos` (SI) of x as a formula."""
    return SBool((x.e & (z3.BitVecVal(1, W) << pos.e)) != 0)

class Pairing:
    """Indices of 2**n amplitudes as (block, offset) around qubit q (most significant first)."""
    def __init__(self, n, q):
        self.n, self.q = n, q
        self.s = n - 1 - q
        self.half = pow2(self.s)
        self.nblocks = pow2(q)
        self.size_block = pow2(n - q)
    def block(self, x): return SI(x.e >> (self.s + 1).e)
    def off(self, x): return SI(x.e & (self.half - 1).e)
    def hi(self, x): return bit(x, self.s)
    def lo_idx(self, x): return SI(x.e & ~self.half.e)
    def hi_idx(self, x): return SI(x.e | self.half.e)

def evolve_spec(pr, op, old):
    def spec(x):
        r = 1 if bool(pr.hi(x)) else 0
        return op[r, 0] * old(pr.lo_idx(x)) + op[r, 1] * old(pr.hi_idx(x))
    return spec

def block_loops(pr, psi, spec, terms=None):
    """Contract resolver for loops that walk over blocks and offsets and update pairs of cells."""
    def inner_acc(e, b):
        # sum_v(b) is by definition the sum of term_v(b, j) over the offsets j of block b, total_v the sum over all blocks
        return {v: (lambda e, j, t=t: t(b, SI.of(j)), lambda e, v=v: SV.atom("sum_" + v, b)) for v, t in terms.items()}
    def resolve(k, it, env, depth):
        if not isinstance(it, SRange):
            return None
        if depth == 0 or depth == 1:
            from gv import sym
            stop_is = lambda v: not isinstance(it.stop, int) and sym.CUR._check(z3.Not(SI.of(it.stop).e == v.e)) == z3.unsat
            # a loop over blocks at depth 0, over offsets at depth 1 (or at depth 0 when there is a single block)
            if depth == 1:
                def state(e, j):
                    b = next(iter(e["outer"].values())); old = e["old:psi"]
                    def c(x):
                        if bool(band(pr.block(x) == b, pr.off(x) < j)):
                            return spec(x)
                        return old(x)
                    return {"psi": c} if psi is not None else {}
                return Loop(state=state, acc=terms and (lambda e: inner_acc(e, next(iter(e["outer"].values())))))
            if stop_is(pr.nblocks) and not (stop_is(pr.half)):
                def state(e, b):
                    old = e["old:psi"]
                    def c(x):
                        return spec(x) if bool(pr.block(x) < b) else old(x)
                    return {"psi": c} if psi is not None else {}
                acc = terms and (lambda e: {v: (lambda e, b, v=v: SV.atom("sum_" + v, b), lambda e, v=v: SV.atom("total_" + v)) for v in terms})
                return Loop(state=state, owner=(lambda e: pr.block), arrays=("psi",) if psi is not None else (), acc=acc)
            def state(e, j):          # single block
                old = e["old:psi"]
                def c(x):
                    return spec(x) if bool(pr.off(x) < j) else old(x)
                return {"psi": c} if psi is not None else {}
            # a single block (proved): its sum is the total
            acc = terms and (lambda e: {v: (t[0], lambda e, v=v: SV.atom("total_" + v)) for v, t in inner_acc(e, SI.of(0)).items()})
            if terms:
                sym.CUR.prove("the whole state is one block", pr.q == 0)
            return Loop(state=state, owner=(lambda e: pr.off), arrays=("psi",) if psi is not None else (), acc=acc)
        return None
    return resolve

def final_array(eng, arr, spec, size, label):
    x = bvar("x"); eng.assume(band(x >= 0, x < size))
    eng.cover("the end of the function is reached")
    eng.prove(label, sv_equal(arr.content(x), spec(x)))

END = ["the end of the function is reached"]

def evolve_single(ob):
    f = need(sv, "_evolve_single_jit")
    eng = Engine(ob, "_evolve_single_jit"); eng.replay = replay("_evolve_single_jit")
    def h():
        n, q = sizes(eng); pr = Pairing(n, q)
        psi = SArr("psi", pow2(n)); op = SMat("op", (2, 2)); old = psi.content
        spec = evolve_spec(pr, op, old)
        ov = {}
        if hasattr(sv, "_compute_op_psi"):
            ov["_compute_op_psi"] = instrument(eng, sv._compute_op_psi, {})
        g = instrument(eng, f, block_loops(pr, psi, spec), ov)
        g(psi, op, n, q)
        final_array(eng, psi, spec, pow2(n), "every amplitude is the one of (op on qubit q) psi")
    eng.explore(h); eng.close(END)

def entangle(ob):
    f = need(sv, "_entangle_jit")
    eng = Engine(ob, "_entangle_jit"); eng.replay = replay("_entangle_jit")
    def h():
        n, a = sizes(eng); b = bvar("target"); eng.assume(band(b >= 0, b < n, b != a))
        psi = SArr("psi", pow2(n)); old = psi.content
        both = lambda x: band(bit(x, n - 1 - a), bit(x, n - 1 - b))
        spec = lambda x: -old(x) if bool(both(x)) else old(x)
        def resolve(k, it, env, depth):
            def state(e, i):
                o = e["old:psi"]
                return {"psi": lambda x: spec(x) if bool(x < i) else o(x)}
            return Loop(state=state, owner=lambda e: (lambda x: x), arrays=("psi",))
        g = instrument(eng, f, resolve)
        g(psi, n, a, b)
        final_array(eng, psi, spec, pow2(n), "controlled-Z: exactly the amplitudes with both bits set change sign")
    eng.explore(h); eng.close(END)

def swap(ob):
    f = need(sv, "_swap_jit")
    eng = Engine(ob, "_swap_jit"); eng.replay = replay("_swap_jit")
    def h():
        n, a = sizes(eng); b = bvar("q2"); eng.assume(band(b >= 0, b < n))
        psi = SArr("psi", pow2(n)); old = psi.content
        pa, pb = n - 1 - a, n - 1 - b
        mask = SI(pow2(pa).e | pow2(pb).e)
        def partner(x):
            return SI(z3.If(bit(x, pa).e != bit(x, pb).e, x.e ^ mask.e, x.e))
        spec = lambda x: old(partner(x))
        def resolve(k, it, env, depth):
            def state(e, i):
                # after i steps exactly the pairs whose smaller index is below i have been exchanged
                def c(x):
                    y = partner(x)
                    return old(y) if bool(bor(x < i, y < i)) else old(x)
                return {"psi": c}
            return Loop(state=state)
        g = instrument(eng, f, resolve)
        g(psi, n, a, b)
        final_array(eng, psi, spec, pow2(n), "amplitude of x is the former one of x with both bits exchanged")
    eng.explore(h); eng.close(END)

def tensor(ob):
    f = need(sv, "_tensor_jit")
    eng = Engine(ob, "_tensor_jit"); eng.replay = replay("_tensor_jit")
    def h():
        n, _ = sizes(eng, False); m = bvar("nqubit_other"); eng.assume(band(m >= 0, m <= NMAX, n + m <= NMAX))
        psi = SArr("psi", pow2(n + m)); oth = SArr("other", pow2(m)); oth.frozen = True
        old = psi.content
        spec = lambda x: old(SI(x.e >> m.e)) * oth.content(SI(x.e & (pow2(m) - 1).e))
        top = pow2(n + m) - 1
        def resolve(k, it, env, depth):
            if depth == 0:
                def state(e, i):       # i blocks of size 2**m written from the top
                    return {"psi": lambda x: spec(x) if bool(top - x < SI.of(i) * pow2(m)) else e["old:psi"](x),
                            "k": top - SI.of(i) * pow2(m)}
            else:
                def state(e, j):
                    i = next(iter(e["outer"].values()))
                    return {"psi": lambda x: spec(x) if bool(top - x < SI.of(i) * pow2(m) + j) else old(x)}
            return Loop(state=state)
        g = instrument(eng, f, resolve)
        g(psi, oth, n, m)
        final_array(eng, psi, spec, pow2(n + m), "amplitude (i, j) of the product is psi_i * other_j")
    eng.explore(h); eng.close(END)

def add_default(ob):
    f = need(sv, "_add_default_node_jit")
    eng = Engine(ob, "_add_default_node_jit"); eng.replay = replay("_add_default_node_jit")
    def h():
        n = bvar("nqubit"); eng.assume(band(n >= 0, n <= NMAX - 1))
        psi = SArr("psi", pow2(n + 1)); old = psi.content
        amp = 1 / math.sqrt(2)
        spec = lambda x: old(SI(x.e >> 1)) * amp
        top = pow2(n + 1) - 1
        def resolve(k, it, env, depth):
            def state(e, i):
                return {"psi": lambda x: spec(x) if bool(top - x < SI.of(i) * 2) else old(x)}
            return Loop(state=state, inv=lambda e, i, loc: [("not past the start", SI.of(i) <= pow2(n))])
        g = instrument(eng, f, resolve)
        g(psi, n)
        final_array(eng, psi, spec, pow2(n + 1), "tensoring |+>: both amplitudes are psi_i / sqrt 2")
    eng.explore(h); eng.close(END)


def pair_index(pr, b, j):
    """The smaller index of pair j of block b."""
    return SI((b * pr.size_block).e | j.e)

def expectation(ob):
    f = need(sv, "_expectation_single_jit")
    eng = Engine(ob, "_expectation_single_jit"); eng.replay = replay("_expectation_single_jit")
    def h():
        n, q = sizes(eng); pr = Pairing(n, q)
        psi = SArr("psi", pow2(n)); psi.frozen = True; op = SMat("op", (2, 2)); old = psi.content
        def term(b, j):
            x = pair_index(pr, b, j); lo, hi = old(x), old(pr.hi_idx(x))
            return lo.conjugate() * (op[0, 0] * lo + op[0, 1] * hi) + hi.conjugate() * (op[1, 0] * lo + op[1, 1] * hi)
        ov = {}
        if hasattr(sv, "_compute_psic_op_psi"):
            ov["_compute_psic_op_psi"] = instrument(eng, sv._compute_psic_op_psi, {})
        g = instrument(eng, f, block_loops(pr, None, None, {"result": term}), ov)
        r = g(psi, op, n, q)
        eng.cover(END[0])
        eng.prove("the result is the sum over all pairs of <psi|op|psi> restricted to the pair", sv_equal(r, SV.atom("total_result")))
    eng.explore(h); eng.close(END)

def evolve_norm(ob):
    f = need(sv, "_evolve_single_and_compute_norm")
    eng = Engine(ob, "_evolve_single_and_compute_norm"); eng.replay = replay("_evolve_single_and_compute_norm")
    def h():
        n, q = sizes(eng); pr = Pairing(n, q)
        psi = SArr("psi", pow2(n)); op = SMat("op", (2, 2)); old = psi.content
        spec = evolve_spec(pr, op, old)
        def term(r):
            def t(b, j):
                x = pair_index(pr, b, j); a = op[r, 0] * old(x) + op[r, 1] * old(pr.hi_idx(x))
                return a * a.conjugate()
            return t
        ov = {}
        if hasattr(sv, "_compute_op_psi_a2"):
            ov["_compute_op_psi_a2"] = instrument(eng, sv._compute_op_psi_a2, {})
        g = instrument(eng, f, block_loops(pr, psi, spec, {"norm2_0": term(0), "norm2_1": term(1)}), ov)
        r = g(psi, op, n, pr.nblocks, pr.size_block, pr.half)
        final_array(eng, psi, spec, pow2(n), "every amplitude is the one of (op on qubit q) psi")
        for k in (0, 1):
            eng.prove(f"norm {k} is the sum of |amplitude|^2 over the indices with bit {k} at q", sv_equal(r[k], SV.atom(f"total_norm2_{k}")))
    eng.explore(h); eng.close(END)

def _scale_spec(pr, old, shift, inv):
    def c(x):          # x = block * half + offset  ->  block * size_block + shift + offset
        return old(SI(((x.e >> pr.s.e) << (pr.s + 1).e) | (x & (pr.half - 1)).e | SI.of(shift).e)) * inv
    return c

def scale(ob):
    f = need(sv, "_scale_psi"); kern = need(sv, "_scale_psi_kernel")
    eng = Engine(ob, "_scale_psi, _scale_psi_kernel"); eng.replay = replay("_scale_psi")
    def h():
        n, q = sizes(eng); pr = Pairing(n, q)
        psi = SArr("psi", pow2(n)); old = psi.content; inv = SV.atom("inv_norm")
        shift = pr.half if eng.choose() else 0
        spec = _scale_spec(pr, old, shift, inv)
        def done(upto):
            return lambda x: spec(x) if bool(x < upto) else old(x)
        def resolve(k, it, env, depth):
            if depth == 0:
                return Loop(state=lambda e, b: {"psi": done(SI.of(b) * pr.half), "k": SI.of(b) * pr.half})
            def state(e, j):
                b = next(iter(e["outer"].values()))
                return {"psi": done(SI.of(b) * pr.half + j), "k": SI.of(b) * pr.half + j}
            return Loop(state=state)
        ov = {"_scale_psi_kernel": instrument(eng, kern, resolve)}
        g = instrument(eng, f, {}, ov)
        g(psi, pr.nblocks, pr.size_block, pr.half, shift, inv)
        x = bvar("x"); eng.assume(band(x >= 0, x < pow2(n - 1)))
        eng.cover(END[0])
        eng.prove("the first half is the selected branch, scaled, in the order of the remaining qubits", sv_equal(psi.content(x), spec(x)))
    eng.explore(h); eng.close(END)

class SReal:
    def __init__(self, e, name): self.e, self.name = e, name
    def __le__(self, o): return SBool(self.e <= (o.e if isinstance(o, SReal) else z3.RealVal(str(o))))
    def __lt__(self, o): return SBool(self.e < (o.e if isinstance(o, SReal) else z3.RealVal(str(o))))
    def __ge__(self, o): return ~(self < o)
    def __gt__(self, o): return ~(self <= o)
    def __eq__(self, o): return SBool(self.e == (o.e if isinstance(o, SReal) else z3.RealVal(str(o))))
    __hash__ = None

class _Root:
    def __init__(self, r): self.r = r
    def __rtruediv__(self, o): return SV.atom("1/sqrt(" + self.r.name + ")") * o

def project(ob):
    import types
    f = need(sv, "_project_qubit_jit"); need(sv, "_evolve_single_and_compute_norm"); need(sv, "_scale_psi")
    eng = Engine(ob, "_project_qubit_jit"); eng.replay = replay("_project_qubit_jit")
    def h():
        n, q = sizes(eng); pr = Pairing(n, q)
        psi = SArr("psi", pow2(n)); op = SMat("op", (2, 2)); old = psi.content
        spec = evolve_spec(pr, op, old)
        norms = [SReal(z3.Real(f"norm2_{k}"), f"norm2_{k}") for k in (0, 1)]
        for v in norms: eng.assume(v >= 0)
        atol = SReal(z3.Real("atol"), "atol"); eng.assume(atol > 0)
        def evolve(p, o, n_, nb, sb, sh):       # contract proved in the unit on _evolve_single_and_compute_norm
            if p is not psi or o is not op: raise Unfit("arguments of _evolve_single_and_compute_norm")
            eng.prove("precondition of _evolve_single_and_compute_norm", band(n_ == n, SI.of(nb) == pr.nblocks, SI.of(sb) == pr.size_block, SI.of(sh) == pr.half))
            psi.content = spec
            return tuple(norms)
        used = []
        def scale_(p, nb, sb, sh, shift, inv):  # contract proved in the unit on _scale_psi
            if p is not psi: raise Unfit("arguments of _scale_psi")
            eng.prove("precondition of _scale_psi", band(SI.of(nb) == pr.nblocks, SI.of(sb) == pr.size_block, SI.of(sh) == pr.half, bor(SI.of(shift) == 0, SI.of(shift) == pr.half)))
            cur = psi.content; sc = _scale_spec(pr, cur, shift, inv)
            psi.content = lambda x: sc(x) if bool(x < pow2(n - 1)) else cur(x)
        g = instrument(eng, f, {}, {"_evolve_single_and_compute_norm": evolve, "_scale_psi": scale_,
                                    "math": types.SimpleNamespace(sqrt=_Root), "np": types.SimpleNamespace(sqrt=_Root)})
        try: m = g(psi, op, n, q, atol)
        except RuntimeError:
            eng.cover("zero state")
            eng.prove("rejected only if both branches have norm at most atol", band(norms[0] <= atol, norms[1] <= atol)); return
        eng.prove("one qubit less", SI.of(m) == n - 1)
        br = 1 if bool(norms[0] <= atol) else 0
        eng.prove("a branch of norm above atol is kept", norms[br] > atol)
        x = bvar("x"); eng.assume(band(x >= 0, x < pow2(n - 1)))
        eng.cover(END[0])
        src = SI(((x.e >> pr.s.e) << (pr.s + 1).e) | (x & (pr.half - 1)).e | (pr.half.e if br else SI.of(0).e))
        eng.prove("the amplitudes are those of op psi with the qubit removed, normalised", sv_equal(psi.content(x), spec(src) * SV.atom(f"1/sqrt(norm2_{br})")))
    eng.explore(h); eng.close([*END, "zero state"])

# -- concrete replay: what a failed obligation is worth ----------------------------------------------------------------
# A loop invariant is the proof's, not the property's: a kernel that visits its pairs in another order fails it and is right.
# When an obligation fails, the real kernel is run on every qubit of small states; a wrong result is the counterexample, and
# without one a failed loop invariant leaves the unit undecided (the compiled kernels are run by the bounded units as well).
import numpy as np
def _full(op, n, qs):
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,)); k = len(qs)
    t = np.moveaxis(np.tensordot(op.reshape((2,) * 2 * k), t, axes=(list(range(k, 2 * k)), list(qs))), list(range(k)), list(qs))
    return t.reshape(2 ** n, 2 ** n)
def _vec(r, n): return r.normal(size=2 ** n) + 1j * r.normal(size=2 ** n)
def _op(r): return r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
def _py(name):
    f = need(sv, name); return getattr(f, "py_func", f)
def _cases(name):
    """(description, run, expected) for small sizes; run() is the real kernel."""
    r = np.random.default_rng(7); f = need(sv, name); plus = np.array([1, 1]) / math.sqrt(2)
    CZ, SWAP = np.diag([1, 1, 1, -1]).astype(complex), np.eye(4)[[0, 2, 1, 3]].astype(complex)
    for n in range(1, 6):
        v = _vec(r, n)
        if name == "_tensor_jit":
            for m in range(0, 6 - n):
                o = _vec(r, m); p = np.concatenate([v, _vec(r, 0).repeat(2 ** (n + m) - 2 ** n)])
                yield f"nqubit={n} nqubit_other={m}", lambda: (f(p, o, n, m), p)[1], np.kron(v, o)
            continue
        if name == "_add_default_node_jit":
            p = np.concatenate([v, np.zeros_like(v)])
            yield f"nqubit={n}", lambda: (f(p, n), p)[1], np.kron(v, plus); continue
        for q in range(n):
            p, op, h = v.copy(), _op(r), 2 ** (n - 1 - q); w = _full(op, n, [q]) @ v; t = w.reshape(2 ** q, 2, h)
            d = f"nqubit={n} qubit={q}"
            if name in ("_swap_jit", "_entangle_jit"):
                for b in range(n):
                    if b == q: continue
                    p2 = v.copy(); yield f"{d} other={b}", lambda: (f(p2, n, q, b), p2)[1], _full(SWAP if name == "_swap_jit" else CZ, n, [q, b]) @ v
            elif name == "_evolve_single_jit": yield d, lambda: (f(p, op, n, q), p)[1], w
            elif name == "_expectation_single_jit": yield d, lambda: np.array([f(p, op, n, q)]), np.array([v.conj() @ w])
            elif name == "_evolve_single_and_compute_norm":
                yield d, lambda: np.concatenate([np.asarray(f(p, op, n, 2 ** q, 2 * h, h)), p]), np.concatenate([(abs(t) ** 2).sum(axis=(0, 2)), w])
            elif name == "_scale_psi":
                for br in (0, 1):
                    p2 = v.copy(); yield f"{d} branch={br}", lambda: (f(p2, 2 ** q, 2 * h, h, br * h, .75), p2[:2 ** (n - 1)])[1], v.reshape(2 ** q, 2, h)[:, br].ravel() * .75
            elif name == "_project_qubit_jit":
                for kind in range(4):
                    a = _vec(r, 1); b = _vec(r, 1)
                    if kind == 3: b[0] = 0
                    o2 = [np.outer(a, b), np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex), np.outer(a, b)][kind]
                    p2 = v.copy(); t2 = (_full(o2, n, [q]) @ v).reshape(2 ** q, 2, h)
                    br = 0 if np.linalg.norm(t2[:, 0]) > 1e-6 else 1; e = t2[:, br].ravel(); e = e / np.linalg.norm(e)
                    yield f"{d} op={kind}", lambda: np.concatenate([[f(p2, o2, n, q, 1e-9)], p2[:2 ** (n - 1)]]), np.concatenate([[n - 1], e])
def replay(name):
    def go():
        for d, run, want in _cases(name):
            try: got = run()
            except Exception as e: return f"{name}({d}) raises {e!r}"
            if not np.allclose(got, want, atol=1e-9): return f"{name}({d}) differs from the dense matrix: {np.asarray(got).round(4).tolist()[:8]}, expected {np.asarray(want).round(4).tolist()[:8]}"
        return None
    return go
