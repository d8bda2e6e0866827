from __future__ import annotations
import itertools, os, random, types
import numpy as np
from gv import boot, sym  # noqa: F401
from gv.bits import BArr, Bit, Sum, exists, forall, ix, lemma, run_int
from gv.core import Prop, Unfit, need
from gv.sym import Engine, Loop, SI, SBool, band, bvar, instrument, z3
from graphix import _linalg as L
from graphix._linalg import MatGF2, solve_f2_linear_system

F = "graphix/_linalg.py:"
P = Prop("C09", "proof",
    "The three kernels are proved for matrices of every shape by loop contracts: product = row-by-column parity, elimination = (reduced) echelon form with the "
    "same annihilator (hence row space), back substitution solves every consistent system in echelon form. The numpy wrappers are proved "
    "against these contracts for every shape: what the kernels are given and what they may modify, rank = number of pivots, the right inverse multiplies to the identity and "
    "is refused only when the rank is too small, the null space consists of the rows without a pivot and is annihilated. Compiled kernels, memory layouts and dimension counts "
    "are also checked exhaustively on small shapes and randomly on larger ones.",
    ["row space = annihilator of the annihilator (finite dimensional duality)", "np.zeros, eye, hstack, any, count_nonzero, flatnonzero and slicing behave as documented; hstack yields a contiguous array", "n vectors that span a space of dimension n are independent (size of the null space)", "numba compiles the kernels faithfully (the compiled code is also run in the bounded unit)"],
    ["z3 / cvc5"])

def mod(name):
    return need(L, name)

def sbv(n): return SI.of(bvar(n))
def natural(n):
    v = bvar(n); sym.CUR.assume(v >= 0); return v

def zeros(shape, dtype=None):
    shape = shape if isinstance(shape, tuple) else (shape,)
    return BArr("zeros", shape, content=lambda *a: z3.BoolVal(False))

NPX = types.SimpleNamespace(zeros=zeros, uint8=np.uint8, bitwise_xor=lambda a, b: a ^ b, int64=np.int64, intp=np.intp)

def eng(ob, name): 
    e = Engine(ob, name, timeout_ms=15000)
    e.mbqi = False
    e.feasible = lambda: True
    return e

@P.proof("product", [F + "_mat_mul_jit"], backend="z3 loop contracts, any shape")
def _(ob):
    fn = mod("_mat_mul_jit")
    @run_int
    def go():
        e = eng(ob, "_mat_mul_jit")
        def harness():
            m, l, n = natural("m"), natural("l"), natural("n")
            a, b = BArr("m1", (m, l), frozen=True), BArr("m2", (l, n), frozen=True)
            # P(i, j, t) = parity over k < t of m1[i,k] & m2[k,j]
            S = Sum(lambda i, j, t: z3.And(a.content(i, t), b.content(t, j)), extra=2)
            q = forall(2, lambda i, j: z3.Not(S(i, j, z3.IntVal(0))), lambda i, j: S(i, j, z3.IntVal(0)))
            e.assume(q)
            v = [z3.Int(e.fresh("d")) for _ in range(3)]
            e.assume(z3.ForAll(v, S(v[0], v[1], v[2] + 1) == z3.Xor(S(*v), z3.And(a.content(v[0], v[2]), b.content(v[2], v[1]))), patterns=[S(v[0], v[1], v[2] + 1)]))
            def rows(env, i):
                i = ix(i)
                return dict(res=lambda x, y: z3.And(x < i, S(x, y, l.e)))
            def cols(env, k):
                i, k = ix(env["i"]), ix(k)
                return dict(res=lambda x, y: z3.If(x < i, S(x, y, l.e), z3.If(x == i, S(x, y, k), z3.BoolVal(False))))
            def cells(env, j):
                i, k, j = ix(env["i"]), ix(env["k"]), ix(j)
                return dict(res=lambda x, y: z3.If(x < i, S(x, y, l.e), z3.If(x == i, z3.If(y < j, S(x, y, k + 1), S(x, y, k)), z3.BoolVal(False))))
            loops = {0: Loop(state=rows, owner=lambda env: (lambda x, y: SI(x.e)), arrays=("res",)), 1: Loop(state=cols), 2: Loop(state=cells)}
            f = instrument(e, fn, loops, dict(np=NPX))
            r = f(a, b)
            if not isinstance(r, BArr): raise Unfit("the product is not an array")
            e.prove("shape of the product", z3.And(r.shape[0].e == m.e, r.shape[1].e == n.e))
            r.compare(e, "res[i,j] = parity of m1[i,k] m2[k,j]", lambda x, y: S(x, y, l.e))
        e.explore(harness); e.close()
    go()

def echelon(A, p, j, piv, m, full):
    """rows < p have their leading entry at piv(r) < j, strictly increasing; rows >= p vanish left of j"""
    out = [("0 <= p <= m, p <= j", z3.And(p >= 0, p <= m, p <= j)),
           ("pivots", forall(1, lambda r: z3.Implies(z3.And(r >= 0, r < p), z3.And(piv(r) >= 0, piv(r) < j, A(r, piv(r)))), lambda r: piv(r))),
           ("pivots increase", forall(2, lambda r, s: z3.Implies(z3.And(r >= 0, r < s, s < p), piv(r) < piv(s)), lambda r, s: z3.MultiPattern(piv(r), piv(s)))),
           ("leading entries", forall(2, lambda r, c: z3.Implies(z3.And(r >= 0, r < p, c >= 0, c < piv(r)), z3.Not(A(r, c))), lambda r, c: A(r, c))),
           ("rows below the pivots vanish", forall(2, lambda r, c: z3.Implies(z3.And(r >= p, r < m, c >= 0, c < j), z3.Not(A(r, c))), lambda r, c: A(r, c)))]
    if full:
        out.append(("pivot columns are reduced", forall(2, lambda r, s: z3.Implies(z3.And(r >= 0, r < m, s >= 0, s < p, r != s), z3.Not(A(r, piv(s)))), lambda r, s: A(r, piv(s)))))
    return out

@P.proof("elimination", [F + "_elimination_jit"], backend="z3 loop contracts, any shape")
def _(ob):
    fn = mod("_elimination_jit")
    @run_int
    def go():
        for full in (False, True):
            e = eng(ob, f"_elimination_jit({'full' if full else 'below'})")
            def harness():
                m, n, ncols = natural("m"), natural("n"), natural("ncols")
                e.assume(ncols <= n)
                A = BArr("A", (m, n)); A0 = A.content
                vec = z3.Function(e.fresh("x"), z3.IntSort(), z3.BoolSort())
                # dot products of the rows with an arbitrary vector
                ghost = {}
                def dots(content):
                    S = Sum(lambda r, t: z3.And(content(r, t), vec(t)), extra=1)
                    return S
                def ann(S): return forall(1, lambda r: z3.Implies(z3.And(r >= 0, r < m.e), z3.Not(S(r, n.e))), lambda r: S(r, n.e))
                D0 = dots(A0)
                def havoc(env, j, now):
                    B = z3.Function(e.fresh("B"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
                    env["gB"] = lambda x, y: B(x, y)
                    A.content = env["gB"]
                    env["piv"] = z3.Function(e.fresh("piv"), z3.IntSort(), z3.IntSort())
                    env["D"] = dots(A.content)
                    return dict(p=bvar("p"))
                def inv(env, j, now):
                    j, p = ix(j), ix(now["p"])
                    if "D" not in env:        # at entry
                        return echelon(A.content, p, j, z3.Function(e.fresh("piv"), z3.IntSort(), z3.IntSort()), m.e, full)
                    if "seen" not in env:     # assumed at the start of an arbitrary iteration / at exit
                        env["seen"] = True; env["p0"] = p; env["j0"] = j
                        ghost["env"] = env
                        return echelon(env["gB"], p, j, env["piv"], m.e, full) + [("annihilator", ann(env["D"]) == ann(D0))]
                    if A.content is env["gB"]:   # no pivot in this column
                        return echelon(A.content, p, j, env["piv"], m.e, full)
                    return finish(p, j)
                def finish(p, j):
                    """after a pivot step: new pivot function, and the annihilator of the rows is unchanged"""
                    env = ghost["env"]
                    g = z3.Function(e.fresh("piv"), z3.IntSort(), z3.IntSort())
                    e.assume(forall(1, lambda r: g(r) == z3.If(r == env["p0"], env["j0"], env["piv"](r)), lambda r: g(r)))
                    B, D, p0, j0, C, i = env["gB"], env["D"], env["p0"], env["j0"], A.content, ix(ghost["i"])
                    D1 = dots(C)
                    pi = lambda r: z3.If(r == p0, i, z3.If(r == i, p0, r))          # the swap
                    comb = lambda r: z3.And(r != p0 if full else r > p0, B(pi(r), j0))
                    def row(r):
                        """D1(r) in terms of D, for one row in range"""
                        lemma("every row is a former row, plus possibly the pivot row", n.e,
                              lambda t: z3.Implies(z3.And(r >= 0, r < m.e), D1(r, t) == z3.Xor(D(pi(r), t), z3.And(comb(r), D(i, t)))),
                              lambda t: (D1.define(r, t), D.define(pi(r), t), D.define(i, t)))
                    r = z3.Int(e.fresh("row")); inr = z3.And(r >= 0, r < m.e)
                    for x in (r, pi(r), p0): row(x)
                    # annihilated before => annihilated after, and conversely; the quantified hypothesis is used at these rows only
                    e.prove("annihilator not shrunk", z3.Implies(z3.And(inr, z3.Not(D(pi(r), n.e)), z3.Not(D(i, n.e))), z3.Not(D1(r, n.e))))
                    e.prove("annihilator not grown", z3.Implies(z3.And(inr, z3.Not(D1(p0, n.e)), z3.Not(D1(pi(r), n.e))), z3.Not(D(r, n.e))))
                    e.prove("the rows used exist", z3.Implies(inr, z3.And(pi(r) >= 0, pi(r) < m.e, i >= 0, i < m.e, p0 >= 0, p0 < m.e)))
                    return echelon(A.content, p, j, g, m.e, full)
                def sinv(env, i, now):
                    return [("no pivot above", forall(1, lambda r: z3.Implies(z3.And(r >= ix(now["p"]), r < ix(i)), z3.Not(A.content(r, ix(now["j"])))), lambda r: A.content(r, ix(now["j"]))))]
                def swap(env, k):
                    B, i, p, k = env["old:mat_data"], ix(env["i"]), ix(env["p"]), ix(k)
                    return dict(mat_data=lambda x, y: z3.If(y < k, B(z3.If(x == i, p, z3.If(x == p, i, x)), y), B(x, y)))
                def rows(below):
                    def st(env, k):
                        ghost["i"] = env["i"]
                        B, p, j, k = env["old:mat_data"], ix(env["p"]), ix(env["j"]), ix(k)
                        return dict(mat_data=lambda x, y: z3.If(z3.And(x < k, x > p if below else x != p, B(x, j)), z3.Xor(B(x, y), B(p, y)), B(x, y)))
                    return st
                def xor(env, l):
                    B, p, k, l = env["old:mat_data"], ix(env["p"]), ix(env["k"]), ix(l)
                    return dict(mat_data=lambda x, y: z3.If(z3.And(x == k, y < l), z3.Xor(B(x, y), B(p, y)), B(x, y)))
                loops = {0: Loop(havoc=havoc, inv=inv, arrays=("mat_data",), auto=False), 1: Loop(inv=sinv, auto=False), 2: Loop(state=swap, auto=False),
                         3: Loop(state=rows(False), auto=False), 4: Loop(state=xor, auto=False), 5: Loop(state=rows(True), auto=False), 6: Loop(state=xor, auto=False)}
                f = instrument(e, fn, loops, dict(np=NPX), expect_loops=7)
                r = f(A, ncols, full)
                e.prove("the matrix is reduced in place", r is A)
                if A.content is not ghost["env"]["gB"]:     # left through `break`: the last pivot row was the last row
                    for lab, f in finish(ghost["env"]["p0"] + 1, ncols.e):
                        e.prove(f"exit: {lab}", f)
                    e.prove("exit only when every row has a pivot", ghost["env"]["p0"] + 1 == m.e)
            e.explore(harness); e.close()
    go()

@P.proof("back substitution", [F + "_solve_f2_linear_system_jit"], backend="z3 loop contracts, any shape")
def _(ob):
    fn = mod("_solve_f2_linear_system_jit")
    @run_int
    def go():
        e = eng(ob, "_solve_f2_linear_system_jit")
        def harness():
            m, n, m0 = natural("m"), natural("n"), natural("nonzero_rows")
            e.assume(m0 <= m)
            A, b = BArr("A", (m, n), frozen=True), BArr("b", (m,), frozen=True)
            a = A.content
            piv = z3.Function(e.fresh("piv"), z3.IntSort(), z3.IntSort())
            # precondition: echelon form, rows >= m0 vanish
            for _l, f in echelon(a, m0.e, n.e, piv, m.e, False)[1:]: e.assume(f)
            def dots(X): return Sum(lambda r, t: z3.And(a(r, t), X(t)), extra=1)
            def solved(S, i): return forall(1, lambda r: z3.Implies(z3.And(r > i, r < m0.e), S(r, n.e) == b.content(r)), lambda r: S(r, n.e))
            def zero(X, i): return z3.Implies(z3.And(i >= 0, i < m0.e), forall(1, lambda c: z3.Implies(z3.And(c >= 0, c <= piv(i)), z3.Not(X(c))), lambda c: X(c)))
            g = {}
            def havoc(env, i, now):
                f = z3.Function(e.fresh("X"), z3.IntSort(), z3.BoolSort())
                now["x"].content = g["X"] = lambda t: f(t)
                g["S"] = dots(g["X"]); g["arr"] = now["x"]; g["i"] = ix(i)
                return {}
            def inv(env, i, now):
                i = ix(i); x = now["x"].content
                if "S" not in g:
                    e.assume(z3.Int(e.fresh("pivot_of_next_row")) == piv(i + 1))     # ground term for the solver
                    return [("nothing left to solve", i >= m0.e - 1), ("unset unknowns are 0", zero(x, i))]
                if x is g["X"]:
                    return [("range", z3.And(i >= -1, i < m0.e)), ("rows below are solved", solved(g["S"], i)), ("unset unknowns are 0", zero(x, i))]
                X, S, pv, i0 = g["X"], g["S"], piv(g["i"]), g["i"]
                S1 = dots(x)
                lemma("entries left of the pivot vanish", pv, lambda t: z3.Implies(t <= pv, z3.Not(S(i0, t))), lambda t: S.define(i0, t))
                lemma("the new unknown enters its row once", n.e, lambda t: S1(i0, t) == z3.Xor(S(i0, t), z3.And(t > pv, x(pv))), lambda t: (S.define(i0, t), S1.define(i0, t)))
                r = z3.Int(e.fresh("row")); e.assume(z3.And(r > i0, r < m0.e))
                lemma("the new unknown does not enter later rows", n.e, lambda t: S1(r, t) == S(r, t), lambda t: (S.define(r, t), S1.define(r, t)))
                e.prove("the row is solved", S1(i0, n.e) == b.content(i0))
                e.prove("later rows stay solved", S1(r, n.e) == b.content(r))
                return [("unset unknowns are 0", zero(x, i))]
            loops = {0: Loop(inv=lambda env, i, now: [("rows above are not zero", ix(i) <= m0.e)], auto=False),
                     1: Loop(inv=lambda env, j, now: [("row is zero so far", forall(1, lambda c: z3.Implies(z3.And(c >= 0, c < ix(j)), z3.Not(a(ix(now["i"]), c))), lambda c: a(ix(now["i"]), c)))], auto=False),
                     2: Loop(havoc=havoc, inv=inv, arrays=("x",), auto=False),
                     3: Loop(state=lambda env, j: dict(pivot=SI.of(-1)), inv=lambda env, j, now: [("not past the pivot", ix(j) <= piv(ix(now["i"])))], auto=False),
                     4: Loop(state=lambda env, k: dict(acc=Bit(z3.Xor(g["S"](g["i"], ix(k)), g["S"](g["i"], piv(g["i"]))))), inv=lambda env, k, now: unfold(k), auto=False)}
            def unfold(k):
                g["S"].define(g["i"], ix(k)); return []
            f = instrument(e, fn, loops, dict(np=NPX), expect_loops=5)
            r = f(A, b)
            e.prove("the solution has one entry per column", r.shape[0].e == n.e and z3.BoolVal(len(r.shape) == 1))
            e.prove("exit state", z3.BoolVal(r is g.get("arr")))
            if r is not g.get("arr") or r.content is not g["X"]: raise Unfit("result is modified after the loop")
            row = z3.Int(e.fresh("row"))
            e.prove("every row of the system is satisfied", z3.Implies(z3.And(row >= 0, row < m0.e), g["S"](row, n.e) == b.content(row)))
        e.explore(harness); e.close()
    go()

# -- the numpy wrappers, against the contracts of the kernels -----------------------------------------------------------------
class RowRange(sym.SRange):
    """enumerate(matrix): the rows with their numbers"""
    def __init__(self, mat): super().__init__(mat.shape[0]); self.mat = mat
    def item(self, i): return i, self.mat[i]
    def concrete(self): return False

class Vec(BArr):
    """Vector of bits."""
    def any(self, axis=None): raise Unfit("any of a vector")
    def __invert__(self): return Vec("not", self.shape, content=lambda i, c=self.content: z3.Not(c(i)))

class Rows:
    """The indices where a vector holds."""
    def __init__(self, vec): self.vec = vec
    def __getitem__(self, k):
        if k != 0: raise Unfit("an entry of flatnonzero other than the first")
        v, eng = self.vec, sym.CUR
        w = eng.witness(v)
        eng.prove("a leading entry exists", z3.And(w >= 0, w < v.shape[0].e, v.content(w)))
        f = z3.Int(eng.fresh("first"))
        eng.assume(z3.And(f >= 0, f <= w, v.content(f)))
        eng.assume(forall(1, lambda c: z3.Implies(z3.And(c >= 0, c < f), z3.Not(v.content(c)))))
        return SI(f)

class Buf:
    def __init__(self, content): self.content = content

class Mat(BArr):
    """Matrix over a buffer; views of the same buffer see its changes (whole-matrix views only)."""
    def __init__(self, name, shape, content=None, buf=None, contig=None, frozen=False):
        self.buf = buf
        self.shape = tuple(SI.of(x) for x in shape); self.name = name; self.frozen = frozen; self.owner = None; self.contig = contig
        if buf is None:
            f = z3.Function(sym.CUR.fresh(name), *[z3.IntSort()] * len(self.shape), z3.BoolSort())
            self.buf = Buf(content or (lambda *a: f(*a)))
    @property
    def content(self): return self.buf.content
    @content.setter
    def content(self, c): self.buf.content = c
    ndim = property(lambda s: len(s.shape))
    data = property(lambda s: s)
    dtype = property(lambda s: np.uint8)
    def view(self, cls=None): return self
    def copy(self): return Mat("copy", self.shape, content=self.content)
    @property
    def T(self):
        c = self.content
        return Mat("T", self.shape[::-1], content=lambda x, y: c(y, x), frozen=True)
    def astype(self, *a, **k): raise Unfit("astype")
    def _span(self, s, n):
        if not isinstance(s, slice) or s.step is not None: raise Unfit(f"slice {s}")
        lo = SI.of(0 if s.start is None else s.start); hi = SI.of(n if s.stop is None else s.stop)
        sym.CUR.prove("slice within the matrix", z3.And(lo.e >= 0, lo.e <= hi.e, hi.e <= SI.of(n).e))
        return lo.e, hi.e
    def __getitem__(self, i):
        c = self.content
        if isinstance(i, tuple) and len(i) == 2 and len(self.shape) == 2:
            a, b = i
            if isinstance(a, slice) and isinstance(b, slice):
                (r0, r1), (c0, c1) = self._span(a, self.shape[0]), self._span(b, self.shape[1])
                return Mat("block", (SI(r1 - r0), SI(c1 - c0)), content=lambda x, y: c(x + r0, y + c0), frozen=True)
            if isinstance(b, slice):
                c0, c1 = self._span(b, self.shape[1])
                if isinstance(a, Rows): return Picked(self, a, c0, c1)
                r = ix(a); sym.CUR.prove(f"{self.name}: row in range", z3.And(r >= 0, r < self.shape[0].e))
                return Vec("row", (SI(c1 - c0),), content=lambda y: c(r, y + c0), frozen=True)
        elif isinstance(i, (SI, int)) and len(self.shape) == 2:
            return self[i, slice(None)]
        return BArr.__getitem__(self, i)
    def __setitem__(self, i, v):
        if isinstance(i, (SI, int)): i = (i, slice(None))
        if isinstance(i, tuple) and isinstance(i[1], slice) and isinstance(v, Vec):
            c0, c1 = self._span(i[1], self.shape[1]); r, c, w = ix(i[0]), self.content, v.content
            sym.CUR.prove(f"{self.name}: row in range", z3.And(r >= 0, r < self.shape[0].e))
            sym.CUR.prove("the row assigned has the length of the slice", v.shape[0].e == c1 - c0)
            if self.frozen: sym.CUR.prove(f"{self.name} is not modified", False)
            self.content = lambda x, y: z3.If(z3.And(x == r, y >= c0, y < c1), w(y - c0), c(x, y))
            return
        BArr.__setitem__(self, i, v)
    def any(self, axis=None):
        if axis not in (1, -1): raise Unfit("any along another axis")
        c, n = self.content, self.shape[1].e
        return Vec("any", (self.shape[0],), content=lambda r: exists(1, lambda y: z3.And(y >= 0, y < n, c(r, y))))
    # contracts of the methods (proved in "wrappers: elimination" and "elimination")
    def _reduce(self, full, ncols=None, copy=True):
        eng = sym.CUR
        if len(self.shape) != 2: raise Unfit("elimination of a vector")
        m, n = self.shape[0].e, self.shape[1].e
        nc = n if ncols is None else ix(ncols)
        eng.prove("elimination within the columns", z3.And(nc >= 0, nc <= n))
        if copy not in (True, False): raise Unfit("copy")
        if not copy and self.frozen: eng.prove(f"{self.name} is not modified", False)
        before = self.content
        A = z3.Function(eng.fresh("red"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        piv = z3.Function(eng.fresh("piv"), z3.IntSort(), z3.IntSort()); p = z3.Int(eng.fresh("p"))
        for _l, f in echelon(lambda x, y: A(x, y), p, nc, piv, m, full): eng.assume(f)
        res = Mat("reduced", self.shape, content=lambda x, y: A(x, y))
        if not copy:
            if self.contig: res = self; self.content = lambda x, y: A(x, y)
            else: self.content = Mat("overwritten", self.shape).content     # reduced or not, depending on the memory layout
        eng.reduced = dict(before=before, after=A, p=p, piv=piv, m=m, n=n, nc=nc, src=self, full=full)
        return res
    def row_reduction(self, ncols=None, copy=True): return self._reduce(True, ncols, copy)
    def gauss_elimination(self, ncols=None, copy=True): return self._reduce(False, ncols, copy)

class Picked:
    """Some rows of a matrix, restricted to a range of columns."""
    def __init__(self, mat, rows, c0, c1): self.content, self.mat, self.rows, self.c0, self.c1 = mat.content, mat, rows, c0, c1
    def view(self, cls=None): return self

def hstack(parts):
    a, b = parts
    ca, cb, n = a.content, b.content, a.shape[1].e
    sym.CUR.prove("blocks of equal height", a.shape[0].e == b.shape[0].e)
    return Mat("hstack", (a.shape[0], a.shape[1] + b.shape[1]), content=lambda x, y: z3.If(y < n, ca(x, y), cb(x, y - n)), contig=True)

def count_nonzero(v, axis=None):
    eng = sym.CUR; red = eng.reduced
    if not isinstance(v, Vec) or axis is not None: raise Unfit("count_nonzero of something else")
    eng.prove("one entry per row", v.shape[0].e == red["m"])
    r = z3.Int(eng.fresh("r"))
    # the pivots witness the non-zero rows
    eng.prove("the rows that do not vanish are the pivot rows", z3.Implies(z3.And(r >= 0, r < red["m"]), v.content(r) == (r < red["p"])))
    return SI(red["p"])

NPM = dict(hstack=hstack, uint8=np.uint8, eye=lambda n, dtype=None: Mat("eye", (n, n), content=lambda x, y: x == y),
           zeros=lambda shape, dtype=None: Mat("zeros", shape, content=lambda *a: z3.BoolVal(False)),
           count_nonzero=count_nonzero, flatnonzero=lambda v: Rows(v))

def weng(ob, name):
    e = eng(ob, name)
    e.witness = lambda v: (_ for _ in ()).throw(Unfit("flatnonzero"))
    e.reduced = dict()
    return e

def fit(e, label, f):
    """a fact the contract below is written for: another way of computing the result is not an error"""
    if e._check(z3.Not(f)) != z3.unsat: raise Unfit(f"the contract does not fit: {label}")
    e.prove(label, f)

class Fit:
    def __init__(self, e): self.e = e
    def prove(self, label, f): fit(self.e, label, f)

def once(calls, name):
    if len(calls) != 1 or calls[0][0] != name: raise Unfit(f"{name} is not called exactly once")

def lift(e, fn, loops=None, **over):
    return instrument(e, getattr(fn, "__func__", fn), loops or {}, dict(np=types.SimpleNamespace(**{**NPM, **over.pop("NP", {})}), enumerate=RowRange, **over), expect_loops=len(loops or {}))

@P.proof("wrappers: elimination and product", [F + f for f in ("MatGF2.gauss_elimination", "MatGF2.row_reduction", "MatGF2.mat_mul", "solve_f2_linear_system")], backend="z3, any shape, any memory layout")
def _(ob):
    @run_int
    def go():
        calls = []
        def kernel(name):
            def k(*a, **kw):
                import inspect
                b = inspect.signature(getattr(mod(name), "py_func", mod(name))).bind(*a, **kw).arguments
                calls.append((name, list(b.values()), [x.content for x in b.values() if isinstance(x, Mat)]))
                arg = b[next(iter(b))]
                if name == "_elimination_jit":
                    arg.content = Mat("K", arg.shape).content
                    return arg
                return Mat("K", arg.shape)
            return k
        def contiguous(x): return x if sym.CUR.choose() else Mat("contiguous", x.shape, content=x.content)
        def new(x, copy=True): return x.copy() if copy else x
        over = lambda: dict(NP=dict(ascontiguousarray=contiguous), MatGF2=new, **{n: kernel(n) for n in ("_elimination_jit", "_mat_mul_jit", "_solve_f2_linear_system_jit")})
        for name, full in (("gauss_elimination", False), ("row_reduction", True)):
            for nc in (False, True):
                for copy in (True, False, None):
                    e = weng(ob, f"MatGF2.{name}({'ncols' if nc else ''}{'' if copy is None else f' copy={copy}'})")
                    def harness():
                        calls.clear()
                        m, n, k = natural("m"), natural("n"), natural("ncols")
                        e.assume(k <= n)
                        A = Mat("self", (m, n)); before, buf = A.content, A.buf
                        r = lift(e, getattr(MatGF2, name), **over())(A, **({"ncols": k} if nc else {}), **({} if copy is None else {"copy": copy}))
                        once(calls, "_elimination_jit")
                        _n, (mat, ncols, flag), (content,) = calls[0]
                        BArr("in", (m, n), content=content).compare(e, "the kernel is given the matrix", before)
                        e.prove("on the requested columns", ix(ncols) == (k.e if nc else n.e))
                        e.prove("with the requested kind of reduction", z3.BoolVal(bool(flag) is full))
                        if not isinstance(r, Mat): raise Unfit("result")
                        r.compare(e, "the result of the kernel is returned", mat.content)
                        e.prove("of the same shape", z3.And(r.shape[0].e == m.e, r.shape[1].e == n.e))
                        if copy is not False:
                            A.compare(e, "a copy leaves the matrix alone", before)
                            e.prove("a copy shares no memory", z3.BoolVal(r.buf is not buf))
                    e.explore(harness); e.close()
        for case in ("match", "mismatch", "vector"):
            e = weng(ob, f"MatGF2.mat_mul({case})")
            def harness():
                calls.clear()
                m, l, l2, n = natural("m"), natural("l"), natural("l2"), natural("n")
                e.assume(l.e == l2.e if case == "match" else l.e != l2.e)
                A = Mat("self", (m, l), frozen=True)
                Bm = Mat("other", (l2,) if case == "vector" else (l2, n), frozen=True)
                try:
                    r = lift(e, MatGF2.mat_mul, **over())(A, Bm)
                except ValueError:
                    e.prove("only incompatible operands are refused", z3.BoolVal(case != "match")); return
                e.prove("incompatible operands are refused", z3.BoolVal(case == "match"))
                if case != "match": return
                once(calls, "_mat_mul_jit")
                a, b = calls[0][2]
                BArr("x", (m, l), content=a).compare(e, "left operand", A.content)
                BArr("x", (l, n), content=b).compare(e, "right operand", Bm.content)
            e.explore(harness); e.close()
        e = weng(ob, "solve_f2_linear_system")
        def harness():
            calls.clear()
            m, n = natural("m"), natural("n")
            A, b = Mat("mat", (m, n), frozen=True), Mat("b", (m,), frozen=True)
            r = lift(e, mod("solve_f2_linear_system"), **over())(A, b)
            once(calls, "_solve_f2_linear_system_jit")
            x, y = calls[0][2]
            BArr("x", (m, n), content=x).compare(e, "matrix", A.content); BArr("x", (m,), content=y).compare(e, "right-hand side", b.content)
        e.explore(harness); e.close()
    go()

@P.proof("wrappers: rank, right inverse, null space", [F + f for f in ("MatGF2.rank", "MatGF2.right_inverse", "MatGF2.null_space")], backend="z3 loop contracts, any shape")
def _(ob):
    @run_int
    def go():
        e = weng(ob, "MatGF2.rank")
        def harness():
            m, n = natural("m"), natural("n")
            A = Mat("self", (m, n), frozen=True)
            r = lift(e, MatGF2.rank)(A)
            red = e.reduced
            if not red: raise Unfit("no elimination")
            Mat("given", (m, n), content=red["before"]).compare(e, "the matrix itself is reduced", A.content)
            fit(e, "on all its columns", red["nc"] == n.e)
            e.prove("the rank is the number of pivots", ix(r) == red["p"])
        e.explore(harness); e.close()

        e = weng(ob, "MatGF2.right_inverse")
        def harness2():
            m, n = natural("m"), natural("n")
            A = Mat("self", (m, n), frozen=True)
            g = {}
            has = z3.Function(e.fresh("has"), z3.IntSort(), z3.BoolSort()); own = z3.Function(e.fresh("own"), z3.IntSort(), z3.IntSort())
            def witness(v): return e.reduced["piv"](ix(g["row"]))
            e.witness = witness
            def state(env, i):
                red = e.reduced; R, piv, mm = red["after"], red["piv"], red["m"]
                if "def" not in g:
                    g["def"] = True      # definition of the row that owns a pivot column (the pivots increase)
                    e.assume(forall(1, lambda s: z3.Implies(z3.And(s >= 0, s < red["p"]), z3.And(has(piv(s)), own(piv(s)) == s)), lambda s: piv(s)))
                    e.assume(forall(1, lambda x: z3.Implies(has(x), z3.And(own(x) >= 0, own(x) < red["p"], piv(own(x)) == x)), lambda x: has(x)))
                g["row"] = i; i = ix(i)
                return dict(rinv=lambda x, y: z3.And(has(x), own(x) < i, R(own(x), n.e + y)))
            def ghost(env, i, now): g["row"] = i
            r = lift(e, MatGF2.right_inverse, {0: Loop(state=state, auto=False, body_ghost=ghost)})(A)
            red = e.reduced
            if r is None:
                if not red:
                    # no elimination needed: more rows than columns; any echelon form has at most as many pivots as columns
                    A.row_reduction(); red = e.reduced
                    # instances of "the pivots increase"
                    lemma("the last of t pivots is at least t - 1", red["p"], lambda t: z3.Implies(t > 0, red["piv"](t - 1) >= t - 1),
                          lambda t: e.assume(z3.Implies(z3.And(t >= 1, t < red["p"]), red["piv"](t - 1) < red["piv"](t))))
                    e.prove("the pivots fit in the columns", z3.Implies(red["p"] > 0, red["p"] <= n.e))
                e.prove("None only if the rank is less than the number of rows", red["p"] < m.e)
                return
            if not isinstance(r, Mat) or not red: raise Unfit("result")
            R, p, piv = red["after"], red["p"], red["piv"]
            e.prove("shape of the inverse", z3.And(r.shape[0].e == n.e, r.shape[1].e == m.e))
            fit(e, "reduced on the columns of the matrix", red["nc"] == n.e)
            Mat("aug", (m, n + m), content=red["before"]).compare(Fit(e), "the augmented matrix is [A | I]", lambda x, y: z3.If(y < n.e, A.content(x, y), x == y - n.e))
            e.prove("an inverse only if every row has a pivot", p == m.e)
            k, row, i = z3.Int(e.fresh("k")), z3.Int(e.fresh("row")), z3.Int(e.fresh("i"))
            e.assume(z3.And(k >= 0, k < m.e, row >= 0, row < m.e, i >= 0, i < m.e))
            X = r.content
            vec = lambda t: z3.If(t < n.e, X(t, k), t - n.e == k)       # column k of the inverse, then the k-th unit vector
            S = Sum(lambda a, t: z3.And(R(a, t), vec(t)), extra=1)
            lemma("a row of the reduced matrix against a column of the inverse", n.e, lambda t: z3.Implies(t <= n.e, S(row, t) == z3.And(piv(row) < t, R(row, n.e + k))),
                  lambda t: (S.define(row, t), e.assume(z3.Implies(has(t), z3.And(own(t) >= 0, own(t) < p, piv(own(t)) == t)))))
            lemma("the unit vector adds the same entry again", m.e, lambda t: z3.Implies(t <= m.e, S(row, n.e + t) == z3.Xor(R(row, n.e + k), z3.And(k < t, R(row, n.e + k)))),
                  lambda t: S.define(row, n.e + t))
            e.prove("every row of the reduced matrix annihilates it", z3.Not(S(row, n.e + m.e)))
            # contract of the elimination: the annihilator is the same before and after (row arbitrary above)
            S0 = Sum(lambda a, t: z3.And(z3.If(t < n.e, A.content(a, t), a == t - n.e), vec(t)), extra=1)
            e.assume(z3.Not(S0(i, n.e + m.e)))
            Pr = Sum(lambda a, t: z3.And(A.content(a, t), X(t, k)), extra=1)
            lemma("left block", n.e, lambda t: z3.Implies(t <= n.e, S0(i, t) == Pr(i, t)), lambda t: (S0.define(i, t), Pr.define(i, t)))
            lemma("right block", m.e, lambda t: z3.Implies(t <= m.e, S0(i, n.e + t) == z3.Xor(Pr(i, n.e), z3.And(k < t, i == k))), lambda t: S0.define(i, n.e + t))
            e.prove("A times the inverse is the identity", Pr(i, n.e) == (i == k))
        e.explore(harness2); e.close()

        e = weng(ob, "MatGF2.null_space")
        def harness3():
            m, n = natural("m"), natural("n")
            A = Mat("self", (m, n), frozen=True)
            r = lift(e, MatGF2.null_space)(A)
            red = e.reduced
            if not isinstance(r, Picked) or not red: raise Unfit("result")
            R, p, piv = red["after"], red["p"], red["piv"]
            fit(e, "reduced on the first block", red["nc"] == m.e)
            Mat("aug", (n, m + n), content=red["before"]).compare(Fit(e), "the augmented matrix is [A^T | I]", lambda x, y: z3.If(y < m.e, A.content(y, x), x == y - m.e))
            row0, col0 = z3.Int(e.fresh("row")), z3.Int(e.fresh("col"))
            fit(e, "the rows are those of the reduced matrix", r.content(row0, col0) == R(row0, col0))
            fit(e, "their second block", z3.And(r.c0 == m.e, r.c1 == m.e + n.e))
            row, i = z3.Int(e.fresh("row")), z3.Int(e.fresh("i"))
            e.assume(z3.And(row >= 0, row < n.e, i >= 0, i < m.e))
            e.prove("exactly the rows without a pivot are kept", r.rows.vec.content(row) == (row >= p))
            e.assume(row >= p)
            # the vector (e_i | A_i) is annihilated by every row (A^T_j | e_j), hence by every row of the reduced matrix
            vec = lambda t: z3.If(t < m.e, t == i, A.content(i, t - m.e))
            j = z3.Int(e.fresh("j")); e.assume(z3.And(j >= 0, j < n.e))
            S0 = Sum(lambda a, t: z3.And(z3.If(t < m.e, A.content(t, a), a == t - m.e), vec(t)), extra=1)
            lemma("first block of the augmented matrix", m.e, lambda t: z3.Implies(t <= m.e, S0(j, t) == z3.And(i < t, A.content(i, j))), lambda t: S0.define(j, t))
            lemma("second block of the augmented matrix", n.e, lambda t: z3.Implies(t <= n.e, S0(j, m.e + t) == z3.Xor(A.content(i, j), z3.And(j < t, A.content(i, j)))), lambda t: S0.define(j, m.e + t))
            e.prove("every row of the augmented matrix annihilates it", z3.Not(S0(j, m.e + n.e)))
            S = Sum(lambda a, t: z3.And(R(a, t), vec(t)), extra=1)
            e.assume(z3.Not(S(row, m.e + n.e)))          # contract of the elimination
            Pr = Sum(lambda a, t: z3.And(A.content(i, t), r.content(a, m.e + t)), extra=1)
            lemma("first block vanishes", m.e, lambda t: z3.Implies(t <= m.e, z3.Not(S(row, t))), lambda t: S.define(row, t))
            lemma("second block", n.e, lambda t: z3.Implies(t <= n.e, S(row, m.e + t) == Pr(row, t)), lambda t: (S.define(row, m.e + t), Pr.define(row, t), S.define(row, m.e)))
            e.prove("every vector returned is annihilated by the matrix", z3.Not(Pr(row, n.e)))
        e.explore(harness3); e.close()
    go()

# -- bounded: wrappers, compiled kernels, layouts, frame -------------------------------------------------------------------
def span(rows, n):
    """reduced basis of the span of `rows` (bit masks)"""
    basis = []
    for v in rows:
        for b in basis: v = min(v, v ^ b)
        if v:
            basis = [min(b, b ^ v) for b in basis]; basis.append(v)
    return sorted(basis)

def masks(a): return [int("".join(map(str, map(int, r))) or "0", 2) for r in np.asarray(a)]

def layout(arr, k):
    """the same matrix in different memory layouts"""
    a = np.asarray(arr, dtype=np.uint8)
    if k == 0: return MatGF2(a)
    if k == 1: return MatGF2(np.asfortranarray(a))
    if k == 2: return MatGF2(a.T.copy()).T
    big = np.ones((a.shape[0] * 2 + 1, a.shape[1] * 3 + 2), dtype=np.uint8)
    v = big[1::2, 1:-1:3][:a.shape[0], :a.shape[1]]
    v[...] = a
    return v.view(MatGF2)

def cases(rng, tier):
    for m in range(4):
        for n in range(4):
            for bits in range(2 ** (m * n)):
                yield [[[bits >> (i * n + j) & 1 for j in range(n)] for i in range(m)], n, (bits + m) % 4, bits]
    while True:
        m, n = rng.choice([(rng.randrange(0, 7), rng.randrange(0, 7)), (rng.randrange(0, 24), rng.randrange(0, 24)), (rng.randrange(0, 70), rng.randrange(0, 70))])
        d = rng.choice([.1, .3, .5, .9])
        a = [[int(rng.random() < d) for _ in range(n)] for _ in range(m)]
        if m > 1 and rng.random() < .6:
            for _ in range(rng.randrange(1, m)):
                i, j, k = (rng.randrange(m) for _ in range(3))
                a[i] = [x ^ y for x, y in zip(a[j], a[k])]
        yield [a, n, rng.randrange(4), rng.randrange(2 ** 40)]

@P.bounded("wrappers", [F + f for f in ("MatGF2.__new__", "MatGF2.mat_mul", "MatGF2.rank", "MatGF2.right_inverse", "MatGF2.null_space", "MatGF2.gauss_elimination", "MatGF2.row_reduction", "solve_f2_linear_system")],
           cases, "all matrices with at most 3 rows and columns, random ones up to 70x70, four memory layouts", quick=12, thorough=150)
def wrappers(case):
    rows, n, lay, seed = case
    r = random.Random(seed)
    m = len(rows)
    a = np.array(rows, dtype=np.uint8).reshape(m, n)
    M = layout(a, lay)
    basis = span(masks(a), n); rank = len(basis)
    same = lambda: np.array_equal(M, a)
    assert M.rank() == rank, f"rank {M.rank()} is not {rank}"
    assert same(), "rank modified its matrix"
    # product
    k = r.randrange(0, 8)
    b = np.array([[r.randrange(2) for _ in range(k)] for _ in range(n)], dtype=np.uint8).reshape(n, k)
    other = layout(b, r.randrange(4))
    pr = M.mat_mul(other)
    assert np.array_equal(pr, (a.astype(int) @ b.astype(int)) % 2) and pr.shape == (m, k), "product"
    assert same() and np.array_equal(other, b), "mat_mul modified an operand"
    assert isinstance(pr, MatGF2) and not np.shares_memory(pr, M)
    # elimination on a prefix of the columns
    for full in (False, True):
        nc = r.choice([None, n, r.randrange(n + 1)])
        red = (M.row_reduction if full else M.gauss_elimination)(ncols=nc, copy=True)
        assert same(), "elimination on a copy modified its matrix"
        assert not np.shares_memory(red, M)
        checked(a, np.asarray(red), n if nc is None else nc, full)
        W = layout(a, lay)
        res = (W.row_reduction if full else W.gauss_elimination)(ncols=nc, copy=False)
        checked(a, np.asarray(res), n if nc is None else nc, full)
    # right inverse
    inv = M.right_inverse()
    assert same(), "right_inverse modified its matrix"
    assert (inv is not None) == (rank == m), f"right inverse {'exists' if rank == m else 'does not exist'} but {inv} was returned"
    if inv is not None:
        assert inv.shape == (n, m) and np.array_equal((a.astype(int) @ np.asarray(inv).astype(int)) % 2, np.eye(m, dtype=int)), "not a right inverse"
    # null space
    ns = M.null_space()
    assert same(), "null_space modified its matrix"
    assert ns.shape == (n - rank, n), f"null space of shape {ns.shape}, dimension is {n - rank}"
    assert not ((a.astype(int) @ np.asarray(ns).astype(int).T) % 2).any(), "not in the null space"
    assert len(span(masks(ns), n)) == n - rank, "null space basis is dependent"
    # linear system in echelon form
    ref = M.gauss_elimination()
    x = np.array([r.randrange(2) for _ in range(n)], dtype=np.uint8)
    rhs = ((np.asarray(ref).astype(int) @ x) % 2).astype(np.uint8)
    refc = np.array(ref)
    sol = solve_f2_linear_system(layout(refc, r.randrange(4)), MatGF2(rhs))
    assert sol.shape == (n,) and np.array_equal((refc.astype(int) @ np.asarray(sol).astype(int)) % 2, rhs), "not a solution"
    # construction copies
    src = a.copy(); c = MatGF2(src)
    if src.size:
        src[0, 0] ^= 1
        assert np.array_equal(c, a), "MatGF2(data) shares memory with data"

def checked(a, red, nc, full):
    assert red.shape == a.shape
    assert span(masks(red), a.shape[1]) == span(masks(a), a.shape[1]), "row space changed"
    last = -1; zero = False; pivots = []
    for i, row in enumerate(red[:, :nc]):
        nz = np.flatnonzero(row)
        if not len(nz): zero = True; continue
        assert not zero, "a non-zero row below a zero row"
        assert nz[0] > last, "leading entries do not move right"
        last = nz[0]; pivots.append((i, last))
    if full:
        for i, j in pivots:
            assert red[:, j].sum() == 1, "pivot column is not reduced"

@P.bounded("compiled kernels", [F + f for f in ("_mat_mul_jit", "_elimination_jit", "_solve_f2_linear_system_jit")], cases,
           "the same cases on the kernels as compiled by numba", quick=8, thorough=60, jit=True)
def compiled(case): return wrappers(case)
