from __future__ import annotations
import itertools, random
import numpy as np
from gv import boot, gen as G, mats as M, psim, sym  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.extract import raw, rebind
from gv.sym import Engine
from graphix import command
from graphix.branch_selector import ConstBranchSelector
from graphix.clifford import Clifford
from graphix.channels import KrausChannel, KrausData
from graphix.noise_models import ApplyNoise, DepolarisingNoise
from graphix.noise_models.noise_model import Noise
from graphix.ops import Ops
from graphix.sim import base_backend as bb
from graphix.sim.base_backend import DenseStateBackend, NodeIndex
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
z3 = boot.z3()

F = "graphix/sim/base_backend.py:"
P = Prop("C30", "proof",
    "NodeIndex: every method is executed on an arbitrary state (a list of any length as a z3 array, its inverse as a z3 map) satisfying the invariant 'the map is the inverse of the list'; the updating loops are "
    "handled by the parallel-assignment rule (one arbitrary iteration is executed, its writes generalised, keys proved pairwise distinct). The invariant, the exact new order and the frame are proved for every "
    "method, hence for every history by induction. Backend methods are executed on opaque nodes, positions and states.",
    ["labels added by extend are fresh and pairwise distinct (documented precondition)", "positions given to swap are in range",
     "lists and dictionaries behave as in Python; labels are hashable and compared by equality"],
    [])

Lab = z3.DeclareSort("Label"); I = z3.IntSort()

class QEngine(Engine):
    """Quantified hypotheses are instantiated with the ground terms at hand (sound; a refutation may be spurious, so it is
    recorded as undecided)."""
    def __init__(self, *a): super().__init__(*a, timeout_ms=6000); self.axioms = []
    def forall(self, sort, f): self.axioms.append((sort, f))
    def explore(self, harness):
        def h(): self.axioms = []; harness()
        super().explore(h)
    def _check(self, *extra):
        done = set(); new = []
        todo = [*self.solver.assertions(), *extra]; seen = set(); terms = {I: {}, Lab: {}}
        def walk(e):
            st = [e]
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.sort() == Lab: terms[Lab][x.get_id()] = x
                    if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for y in x.children():
                            if y.sort() == I: terms[I][y.get_id()] = y
                    if x.sort() == I and not z3.is_int_value(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: terms[I][x.get_id()] = x
                    st.extend(x.children())
        for e in todo: walk(e)
        self.solver.push()
        try:
            for rnd in range(3):
                batch = []
                for i, (sort, f) in enumerate(self.axioms):
                    for t in list(terms[sort].values()):
                        if (i, t.get_id()) in done: continue
                        done.add((i, t.get_id())); batch.append(z3.simplify(f(t)))
                if len(done) > 4000: break
                self.solver.add(*batch)
                for e in batch: walk(e)
                r = super()._check(*extra)
                if r == z3.unsat or not batch: return r
            return r
        finally: self.solver.pop()

class Num:
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x):
        if isinstance(x, Num): return x.e
        if isinstance(x, int) and not isinstance(x, bool): return z3.IntVal(x)
        raise Unfit(f"integer expected, got {x!r}")
    def __lt__(self, o): return sym.SBool(self.e < Num.of(o))
    def __le__(self, o): return sym.SBool(self.e <= Num.of(o))
    def __gt__(self, o): return sym.SBool(self.e > Num.of(o))
    def __ge__(self, o): return sym.SBool(self.e >= Num.of(o))
    def __eq__(self, o): return sym.SBool(self.e == Num.of(o))
    def __ne__(self, o): return sym.SBool(self.e != Num.of(o))
    def __add__(self, o): return Num(self.e + Num.of(o))
    __radd__ = __add__
    def __sub__(self, o): return Num(self.e - Num.of(o))
    def __rsub__(self, o): return Num(Num.of(o) - self.e)
    def _no(self, *a): raise Unfit("a symbolic integer is converted")
    __float__ = __int__ = __index__ = _no
    def __bool__(self): return bool(self != 0)
    __hash__ = None

class Label:
    def __init__(self, e): self.e = e
    def __eq__(self, o): return sym.SBool(self.e == o.e) if isinstance(o, Label) else NotImplemented
    def __ne__(self, o): return sym.SBool(self.e != o.e) if isinstance(o, Label) else NotImplemented
    def __hash__(self): raise Unfit("a symbolic label is hashed")

class Seq:
    """An arbitrary sequence of labels, as given by a caller."""
    def __init__(self, at, n): self.at, self.n = at, n
    def __iter__(self): raise Unfit("iteration over the argument")

class SList:
    def __init__(self, eng, at, n): self.eng, self.at, self.n = eng, at, n
    def _inr(self, i):
        if not self.eng.decide(z3.And(i >= 0, i < self.n)): raise Unfit("index out of range")
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None or i.stop is not None: raise Unfit("slice")
            a = z3.IntVal(0) if i.start is None else Num.of(i.start)
            if not self.eng.decide(z3.And(a >= 0, a <= self.n)): raise Unfit("slice out of range")
            at = self.at
            return Seq(lambda k, a=a, at=at: at(k + a), self.n - a)
        i = Num.of(i); self._inr(i)
        return Label(self.at(i))
    def __setitem__(self, i, v):
        i = Num.of(i); self._inr(i); at = self.at
        self.at = lambda k, at=at: z3.If(k == i, v.e, at(k))
    def __delitem__(self, i):
        i = Num.of(i); self._inr(i); at = self.at
        self.at = lambda k, at=at: z3.If(k < i, at(k), at(k + 1)); self.n = self.n - 1
    def pop(self, i):
        r = self[i]; del self[i]; return r
    def append(self, v):
        n, at = self.n, self.at; self.at = lambda k: z3.If(k == n, v.e, at(k)); self.n = n + 1
    def extend(self, s):
        if not isinstance(s, (Seq, SList)): raise Unfit("extend")
        n, at, sa = self.n, self.at, s.at
        self.at = lambda k: z3.If(k < n, at(k), sa(k - n)); self.n = n + s.n
    def __getattr__(self, a): raise Unfit(f"list operation {a}")

class SDict:
    """A finite map from labels to integers: value and presence."""
    def __init__(self, eng, val, dom): self.eng, self.val, self.dom, self.loop = eng, val, dom, None
    def __getitem__(self, k):
        if self.loop is not None: raise Unfit("the loop reads the map")
        if not self.eng.decide(self.dom(k.e)): raise KeyError(k)
        return Num(self.val(k.e))
    def __contains__(self, k):
        if self.loop is not None: raise Unfit("the loop reads the map")
        return self.eng.decide(self.dom(k.e))
    def __setitem__(self, k, v):
        v = Num.of(v)
        if self.loop is not None: self.loop.append((k.e, v)); return
        val, dom = self.val, self.dom
        self.val = lambda u: z3.If(u == k.e, v, val(u)); self.dom = lambda u: z3.Or(u == k.e, dom(u))
    def __delitem__(self, k):
        if self.loop is not None: raise Unfit("the loop deletes from the map")
        if not self.eng.decide(self.dom(k.e)): raise KeyError(k)
        dom = self.dom; self.dom = lambda u: z3.And(u != k.e, dom(u))
    def pop(self, k):
        r = self[k]; del self[k]; return r
    def __getattr__(self, a): raise Unfit(f"dictionary operation {a}")

def senum(eng, holder):
    """enumerate, with the loop over it cut: one arbitrary iteration, its writes generalised to all iterations."""
    def enumerate_(s, start=0):
        if not isinstance(s, Seq): raise Unfit("enumerate")
        start = z3.simplify(Num.of(start)); d = holder()
        t = z3.Int(eng.fresh("t"))
        if not eng.decide(s.n > 0): return
        eng.solver.add(t >= 0, t < s.n)
        d.loop = []
        yield Num(start + t), Label(s.at(t))
        w, d.loop = d.loop, None
        if holder() is not d: raise Unfit("the map is replaced in the loop")
        if len(w) != 1: raise Unfit(f"{len(w)} writes in one iteration")
        key = lambda x: z3.substitute(w[0][0], (t, x)); val = lambda x: z3.substitute(w[0][1], (t, x))
        a, b = z3.Int(eng.fresh("a")), z3.Int(eng.fresh("b"))
        eng.prove("the iterations of the loop write different entries", z3.Implies(z3.And(a >= 0, a < b, b < s.n), key(a) != key(b)))
        V = z3.Function(eng.fresh("value"), Lab, I); D = z3.Function(eng.fresh("present"), Lab, z3.BoolSort()); T = z3.Function(eng.fresh("iteration"), Lab, I)
        hit = lambda u: z3.And(T(u) >= 0, T(u) < s.n, key(T(u)) == u)
        ov, od = d.val, d.dom
        every = lambda x: z3.Implies(z3.And(x >= 0, x < s.n), z3.And(T(key(x)) == x, V(key(x)) == val(x), D(key(x))))
        eng.forall(I, lambda x: z3.And(every(x - start), every(x - start - 1)))          # instances of the same fact
        eng.forall(Lab, lambda u: z3.If(hit(u), z3.And(D(u), V(u) == val(T(u))), z3.And(D(u) == od(u), V(u) == ov(u))))
        d.val, d.dom = (lambda u: V(u)), (lambda u: D(u))
    return enumerate_

def make(eng):
    """An arbitrary NodeIndex satisfying the invariant; its methods are the real ones."""
    holder = {}
    def slen(x):
        if isinstance(x, SList): return Num(x.n)
        if isinstance(x, Seq): return Num(x.n)
        if isinstance(x, cls): return cls.__dict__["__len__"](x)
        return len(x)
    ns = {n: rebind(f, len=slen, enumerate=senum(eng, lambda: need(holder["self"], "_NodeIndex__dict"))) for n, f in vars(NodeIndex).items() if callable(f) and hasattr(f, "__code__")}
    cls = type("NodeIndex", (), ns)
    me = cls.__new__(cls); holder["self"] = me
    need(NodeIndex(), "_NodeIndex__list"); need(NodeIndex(), "_NodeIndex__dict")
    At = z3.Function("at", I, Lab); Val = z3.Function("position", Lab, I); Dom = z3.Function("active", Lab, z3.BoolSort()); n = z3.Int("n")
    me._NodeIndex__list = SList(eng, lambda k: At(k), n); me._NodeIndex__dict = SDict(eng, lambda u: Val(u), lambda u: Dom(u))
    eng.solver.add(n >= 0)
    eng.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(Dom(At(k)), Val(At(k)) == k)))
    eng.forall(Lab, lambda u: z3.Implies(Dom(u), z3.And(Val(u) >= 0, Val(u) < n, At(Val(u)) == u)))
    return me, At, Val, Dom, n

def invariant(eng, me, what="", cut=None):
    """`cut(position)`: a case distinction on the position (lemma-free hint)."""
    l, d = need(me, "_NodeIndex__list"), need(me, "_NodeIndex__dict")
    if isinstance(l, list) or isinstance(d, dict):
        eng.prove(f"{what}the map is the inverse of the list", l == [] and d == {}); return
    i = z3.Int(eng.fresh("i")); u = z3.Const(eng.fresh("w"), Lab)
    for c in (cut(i, None) if cut else [z3.BoolVal(True)]):
        eng.prove(f"{what}every position's node is mapped to the position", z3.Implies(z3.And(i >= 0, i < l.n, c), z3.And(d.dom(l.at(i)), d.val(l.at(i)) == i)))
    for c in (cut(None, u) if cut else [z3.BoolVal(True)]):
        eng.prove(f"{what}every node of the map is at its position", z3.Implies(z3.And(d.dom(u), c), z3.And(d.val(u) >= 0, d.val(u) < l.n, l.at(d.val(u)) == u)))

def explore(ob, label, run, covers):
    eng = QEngine(ob, label); n0 = len(ob.obls)
    eng.explore(lambda: run(eng)); eng.close(covers)
    for o in ob.obls[n0:]:
        if o.status == "refuted": o.status = "undecided"

@P.proof("the index", [F + f"NodeIndex.{m}" for m in ("__init__", "__getitem__", "index", "__len__", "extend", "remove", "swap", "clear", "__iter__")], backend="z3")
def index_(ob):
    def p_remove(eng):
        me, At, Val, Dom, n = make(eng); v = Label(z3.Const("v", Lab))
        present = eng.decide(Dom(v.e)); l, d = me._NodeIndex__list, me._NodeIndex__dict; i = z3.Int("j"); u = z3.Const("other", Lab)
        try: me.remove(v)
        except KeyError:
            eng.prove("only unknown nodes are refused", z3.Not(Dom(v.e)))
            if me._NodeIndex__list is not l or me._NodeIndex__dict is not d: raise Unfit("replaced containers")
            eng.prove("a refused removal changes nothing", z3.And(l.n == n, z3.Implies(z3.And(i >= 0, i < n), l.at(i) == At(i)), d.dom(u) == Dom(u), d.val(u) == Val(u)))
            eng.cover("refused"); return
        eng.cover("removed"); eng.prove("unknown nodes are refused", Dom(v.e))
        l, d = me._NodeIndex__list, me._NodeIndex__dict; pos = Val(v.e)
        eng.prove("one node less", l.n == n - 1)
        eng.prove("the other nodes keep their order", z3.Implies(z3.And(i >= 0, i < n - 1), l.at(i) == z3.If(i < pos, At(i), At(i + 1))))
        eng.prove("exactly the removed node is gone", d.dom(u) == z3.And(Dom(u), u != v.e))
        def cut(i, u):
            q = i if u is None else Val(u)
            return [q < pos, q > pos, z3.And(q == pos, z3.BoolVal(True) if u is None else u == v.e), *([] if u is None else [z3.And(q == pos, u != v.e)])]
        invariant(eng, me, "", cut)
    explore(ob, "remove", p_remove, ["removed", "refused"])
    def p_extend(eng):
        me, At, Val, Dom, n = make(eng); S = z3.Function("new", I, Lab); m = z3.Int("m"); k, k2 = z3.Ints("k k2"); eng.solver.add(m >= 0)
        X = z3.Function("rank", Lab, I)                   # pairwise distinct: the sequence has an inverse
        eng.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < m), z3.And(z3.Not(Dom(S(k))), X(S(k)) == k)))
        me.extend(Seq(lambda k: S(k), m)); l, d = me._NodeIndex__list, me._NodeIndex__dict; i = z3.Int("j"); u = z3.Const("other", Lab)
        eng.cover("extended"); eng.prove("the nodes are added", l.n == n + m)
        eng.prove("at the end, in order, the others staying in place", z3.Implies(z3.And(i >= 0, i < n + m), l.at(i) == z3.If(i < n, At(i), S(i - n))))
        eng.prove("exactly the new nodes are added", d.dom(u) == z3.Or(Dom(u), z3.And(X(u) >= 0, X(u) < m, S(X(u)) == u)))
        invariant(eng, me)
    explore(ob, "extend", p_extend, ["extended"])
    def p_swap(eng):
        me, At, Val, Dom, n = make(eng); a, b = z3.Ints("a b"); eng.solver.add(a >= 0, a < n, b >= 0, b < n)
        me.swap(Num(a), Num(b)); l, d = me._NodeIndex__list, me._NodeIndex__dict; i = z3.Int("j"); u = z3.Const("other", Lab)
        eng.cover("swapped"); eng.prove("as many nodes", l.n == n)
        eng.prove("the two nodes are exchanged and no other", z3.Implies(z3.And(i >= 0, i < n), l.at(i) == z3.If(i == a, At(b), z3.If(i == b, At(a), At(i)))))
        eng.prove("the same nodes", d.dom(u) == Dom(u)); invariant(eng, me)
    explore(ob, "swap", p_swap, ["swapped"])
    def p_read(eng):
        me, At, Val, Dom, n = make(eng); v = Label(z3.Const("v", Lab)); i = z3.Int("i"); eng.solver.add(i >= 0, i < n)
        x = me[Num(i)]; eng.prove("the node at a position", x.e == At(i))
        eng.prove("the number of nodes", type(me).__dict__["__len__"](me).e == n)
        try: p = me.index(v)
        except KeyError: eng.cover("refused"); eng.prove("only unknown nodes are refused", z3.Not(Dom(v.e))); return
        eng.cover("found"); eng.prove("the position of a node", z3.And(Dom(v.e), p.e == Val(v.e), At(p.e) == v.e))
    explore(ob, "index, [], len", p_read, ["found", "refused"])
    def p_clear(eng):
        me, At, Val, Dom, n = make(eng); me.clear(); invariant(eng, me, "clear: "); eng.cover("cleared")
        me2 = type(me).__new__(type(me)); me2.__init__(); invariant(eng, me2, "new: ")
        eng.prove("two indices share nothing", me2._NodeIndex__list is not me._NodeIndex__list and me2._NodeIndex__dict is not me._NodeIndex__dict)
    explore(ob, "clear and creation", p_clear, ["cleared"])
    x = NodeIndex(); x.extend(iter([5, 3, 9])); ob.check("iteration gives the nodes in order; extend takes any iterable", list(x) == [5, 3, 9] and [x.index(v) for v in (5, 3, 9)] == [0, 1, 2])

class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return f"<{self.n}>"
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __bool__ = __len__ = __iter__ = __lt__ = __add__ = __mul__ = __float__ = __int__ = __index__ = __contains__ = _no
    __hash__ = object.__hash__

class RecState:
    def __init__(self): self.calls = []
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        def f(*args, **kw): self.calls.append((a, args, kw))
        return f

class RecIndex:
    """An arbitrary index: given nodes at opaque positions."""
    def __init__(self, pos): self.pos, self.log = pos, []
    def index(self, n):
        for k, p in self.pos:
            if k is n: return p
        raise KeyError(n)
    def extend(self, ns): self.log.append(("extend", ns))
    def remove(self, n): self.log.append(("remove", n))
    def clear(self): self.log.append(("clear",))
    def __getattr__(self, a): raise Unfit(f"index operation {a}")

def bind(fn, args, kw):
    """arguments by name of the state operations"""
    names = {"entangle": ["qubits"], "evolve_single": ["op", "qubit"], "apply_noise": ["qubits", "noise"], "permute": ["permutation"], "add_nodes": ["nqubit", "data"]}[fn]
    d = dict(zip(names, args)); d.update(kw); return d

@P.proof("addressing", [F + "DenseStateBackend." + m for m in ("add_nodes", "entangle_nodes", "apply_noise", "apply_single", "apply_clifford", "correct_byproduct", "finalize")], "opaque nodes, positions and states")
def addressing(ob):
    D = DenseStateBackend
    u, v, w, pu, pv, pw, stranger = (Tok(x) for x in ("u", "v", "w", "position of u", "position of v", "position of w", "stranger"))
    def be():
        b = type("B", (), {})(); b.state, b.node_index = RecState(), RecIndex([(u, pu), (v, pv), (w, pw)]); b.symbolic = False
        b.apply_single = lambda node, op: D.apply_single(b, node, op)
        return b
    def one(name, call, want):
        b = be(); call(b); c = b.state.calls
        ob.structural(f"{name}: one operation of the state", len(c) == 1 and want(c[0][0], bind(*c[0]) if len(c) == 1 else None) and not b.node_index.log)
    one("entangle_nodes", lambda b: D.entangle_nodes(b, (u, w)), lambda n, a: n == "entangle" and len(a["qubits"]) == 2 and {id(x) for x in a["qubits"]} == {id(pu), id(pw)})
    noise = Tok("noise")
    for nodes, ps in (([u], [pu]), ([w, u], [pw, pu]), ([u, v, w], [pu, pv, pw])):
        one(f"apply_noise on {nodes}", lambda b: D.apply_noise(b, ApplyNoise(noise, nodes)), lambda n, a: n == "apply_noise" and len(a["qubits"]) == len(ps) and all(x is y for x, y in zip(a["qubits"], ps)) and a["noise"] is noise)
    op = Tok("operator"); one("apply_single", lambda b: D.apply_single(b, v, op), lambda n, a: n == "evolve_single" and a["qubit"] is pv and a["op"] is op)
    for c in Clifford: one(f"apply_clifford {c.name}", lambda b: D.apply_clifford(b, w, c), lambda n, a: n == "evolve_single" and a["qubit"] is pw and np.allclose(a["op"], c.matrix))
    one("correct_byproduct X", lambda b: D.correct_byproduct(b, command.X(u)), lambda n, a: n == "evolve_single" and a["qubit"] is pu and np.allclose(a["op"], M.X))
    one("correct_byproduct Z", lambda b: D.correct_byproduct(b, command.Z(v)), lambda n, a: n == "evolve_single" and a["qubit"] is pv and np.allclose(a["op"], M.Z))
    for order, ps in (([], []), ([v], [pv]), ([w, u], [pw, pu]), ([w, u, v], [pw, pu, pv])):
        b = be(); D.finalize(b, order); c = b.state.calls
        ob.structural(f"finalize: the state is permuted to the order {order}", len(c) == 1 and c[0][0] == "permute" and len(bind(*c[0])["permutation"]) == len(ps) and all(x is y for x, y in zip(bind(*c[0])["permutation"], ps)))
        ob.structural(f"finalize: the index becomes {order}", [x[0] for x in b.node_index.log] == ["clear", "extend"] and list(b.node_index.log[1][1]) == order)
    data = Tok("data")
    for nodes in ([], [u], [w, stranger]):
        b = be(); D.add_nodes(b, nodes, data); c = b.state.calls
        ob.structural(f"add_nodes {nodes}: as many qubits are added", len(c) == 1 and c[0][0] == "add_nodes" and bind(*c[0])["nqubit"] == len(nodes) and bind(*c[0])["data"] is data)
        ob.structural(f"add_nodes {nodes}: the nodes are indexed in order", len(b.node_index.log) == 1 and b.node_index.log[0][0] == "extend" and list(b.node_index.log[0][1]) == nodes)
    bad = {"entangle_nodes": lambda b: D.entangle_nodes(b, (u, stranger)), "entangle_nodes'": lambda b: D.entangle_nodes(b, (stranger, u)), "apply_noise": lambda b: D.apply_noise(b, ApplyNoise(noise, [u, stranger])),
           "apply_single": lambda b: D.apply_single(b, stranger, op), "apply_clifford": lambda b: D.apply_clifford(b, stranger, Clifford.H), "correct_byproduct": lambda b: D.correct_byproduct(b, command.X(stranger)),
           "finalize": lambda b: D.finalize(b, [u, stranger])}
    for n, f in bad.items():
        b = be()
        try: f(b)
        except (KeyError, ValueError): ok = not b.state.calls and not b.node_index.log
        else: ok = False
        ob.structural(f"{n}: unknown nodes are refused before anything happens", ok)

# ---------------------------------------------------------------------------------------------------------------------------
@P.bounded("histories of the index", [F + "NodeIndex"], lambda rng, tier: G.seeds(rng, lambda r: r.choice([5, 20, 60])), "random histories of up to 60 operations against a list, labels negative and large", quick=4, thorough=40)
def histories(case):
    seed, steps = case; r = random.Random(seed); x = NodeIndex(); ref = []; other = NodeIndex(); pool = [r.choice([r.randrange(-50, 50), r.randrange(2 ** 40)]) for _ in range(200)]
    hist = []
    for _ in range(steps):
        k = r.choice(["extend", "extend", "remove", "remove", "swap", "clear" if r.random() < .1 else "swap", "bad"])
        if k == "extend":
            new = list(dict.fromkeys(v for v in r.sample(pool, r.randrange(4)) if v not in ref)); x.extend(r.choice([list, iter, tuple])(new)); ref += new; hist.append((k, new))
        elif k == "remove" and ref: v = r.choice(ref); x.remove(v); ref.remove(v); hist.append((k, v))
        elif k == "swap" and ref:
            i, j = r.randrange(len(ref)), r.randrange(len(ref)); x.swap(i, j); ref[i], ref[j] = ref[j], ref[i]; hist.append((k, i, j))
        elif k == "clear": x.clear(); ref = []; hist.append((k,))
        elif k == "bad":
            v = r.choice([p for p in pool if p not in ref])
            for f in (x.index, x.remove):
                try: f(v)
                except (KeyError, ValueError): pass
                else: raise AssertionError(f"unknown node {v} accepted after {hist}")
        assert list(x) == ref and len(x) == len(ref), f"order {list(x)} instead of {ref} after {hist}"
        assert [x.index(v) for v in ref] == list(range(len(ref))), f"positions {[x.index(v) for v in ref]} after {hist}"
        assert [x[i] for i in range(len(ref))] == ref
    assert list(other) == []

class Unitary(Noise):
    def __init__(self, u): self.u = u
    nqubits = property(lambda self: 2)
    def to_krauschannel(self): return KrausChannel([KrausData(1.0, self.u)])

@P.bounded("histories of a backend", [F + "DenseStateBackend." + m for m in ("add_nodes", "measure", "finalize", "entangle_nodes", "apply_single", "apply_clifford", "apply_noise")],
           lambda rng, tier: G.seeds(rng, lambda r: r.choice([4, 10, 18])), "random histories of up to 18 operations with at most 6 active nodes, against an independent labelled simulation", quick=8, thorough=80)
def backend_histories(case):
    seed, steps = case; r = random.Random(seed); g = np.random.default_rng(seed % 2 ** 32); dm = r.random() < .3
    o = r.randrange(2)
    be = (DensityMatrixBackend if dm else StatevectorBackend)(branch_selector=ConstBranchSelector(o)); sim = psim.Sim([]); alive = []; hist = []; pool = r.sample(range(-20, 200), 60)
    def same(order):
        v = sim.t.transpose([*(sim.nodes.index(x) for x in order), len(order)]).ravel(); nrm = np.linalg.norm(v)
        if nrm < 1e-6: return True
        v = v / nrm
        return np.allclose(be.state.rho, np.outer(v, v.conj()), atol=1e-7) if dm else M.phase_equal(be.state.flatten(), v, 1e-7)
    for _ in range(steps):
        k = r.choice(["add", "add", "add", "cz", "cz", "single", "clifford", "corr", "measure", "bad", *(["noise"] * 2 if dm else [])])
        if k == "add" and len(alive) < 6:
            ns = [pool.pop() for _ in range(1 + (r.random() < .3))]
            if r.random() < .5:
                s = r.choice(G.STATES); be.add_nodes(ns, s); vs = [s.to_statevector_numpy()] * len(ns)
                for n, v in zip(ns, vs): sim.prep(n, v)
            else:
                v = M.rand_state(g, len(ns)); be.add_nodes(ns, Statevector(v))
                sim.t = np.multiply.outer(v.reshape((2,) * len(ns)), sim.t); sim.nodes = [*ns, *sim.nodes]
            alive += ns; hist.append((k, ns))
        elif k == "cz" and len(alive) > 1: e = tuple(r.sample(alive, 2)); be.entangle_nodes(e); sim.cz(*e); hist.append((k, e))
        elif k == "single" and alive: v = r.choice(alive); m = M.rand_unitary(g, 2); be.apply_single(v, m); sim.op(m, [v]); hist.append((k, v))
        elif k == "clifford" and alive: v = r.choice(alive); c = r.choice(list(Clifford)); be.apply_clifford(v, c); sim.op(psim.clifford_matrix(c), [v]); hist.append((k, v, c.name))
        elif k == "corr" and alive: v = r.choice(alive); x = r.random() < .5; be.correct_byproduct((command.X if x else command.Z)(v)); sim.op(M.X if x else M.Z, [v]); hist.append((k, v))
        elif k == "measure" and alive:
            v = r.choice(alive); m = G.measurement(r); b = psim.bra(m, o)
            if np.linalg.norm(np.tensordot(b, sim.t, axes=(0, sim.nodes.index(v)))) < 1e-4 * np.linalg.norm(sim.t): continue
            assert be.measure(v, m) == o; sim.project(v, b, o); alive.remove(v); hist.append((k, v))
        elif k == "noise" and len(alive) > 1:           # a unitary channel without symmetry: the state stays pure
            e = r.sample(alive, 2); u = M.rand_unitary(g, 4); be.apply_noise(ApplyNoise(Unitary(u), e)); sim.op(u, e); hist.append((k, e))
        elif k == "bad":
            s = pool[0]; before = list(be.node_index); st = np.array(be.state.rho if dm else be.state.flatten())
            for f in (lambda: be.apply_single(s, M.X), lambda: be.apply_clifford(s, Clifford.H), lambda: be.measure(s, G.measurement(r)), lambda: be.entangle_nodes((alive[0] if alive else pool[1], s)),
                      lambda: be.correct_byproduct(command.Z(s)), lambda: be.finalize([*alive, s]), *((lambda: be.apply_noise(ApplyNoise(DepolarisingNoise(.1), [s])),) if dm else ())):
                try: f()
                except (KeyError, ValueError): pass
                else: raise AssertionError(f"unknown node {s} accepted after {hist}")
            assert list(be.node_index) == before and np.array_equal(st, np.array(be.state.rho if dm else be.state.flatten())), f"a refused command changes something after {hist}"
        assert be.nqubit == len(alive) and list(be.node_index) == alive, f"nodes {list(be.node_index)} instead of {alive} after {hist}"
        assert same(alive), f"another qubit was addressed: {hist}"
    out = list(alive); r.shuffle(out); be.finalize(out)
    assert list(be.node_index) == out and [be.node_index.index(v) for v in out] == list(range(len(out))) and same(out), f"order of the outputs {out} after {hist}"
