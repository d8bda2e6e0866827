"""Arbitrary open graphs, flow candidates and correction maps (symbolic), for contracts of the flow classes."""
from __future__ import annotations
import itertools
from typing import Any, Callable
from . import boot
from .core import Unfit
from .fsets import B, FEngine, FMap, FSeq, FSet, I, Lab, Layers, Lbl, Obj, PROBE, SEnum, lift, past, z3
from graphix.flow import exceptions as X
from graphix.fundamentals import Axis, Plane

PLANES = [Plane.XY, Plane.XZ, Plane.YZ]; LABELS = [*PLANES, Axis.X, Axis.Y, Axis.Z]
ix = LABELS.index; E3 = z3.BitVecSort(3)

class Label:
    """A measurement, seen through its plane (or axis)."""
    def __init__(self, w, e): self.w, self.e = w, e
    def to_plane_or_axis(self): return SEnum(self.w.lab(self.e), LABELS)
    def to_plane(self): return SEnum(self.w.plane(self.e), PLANES)
    def __getattr__(self, a): raise Unfit(f"measurement attribute {a}")

class Graph:
    def __init__(self, nodes): self.nodes = nodes
    def __bool__(self): return bool(self.nodes)
    def __contains__(self, x): return x in self.nodes
    def __iter__(self): return iter(self.nodes)
    def __getattr__(self, a): raise Unfit(f"graph attribute {a}")

class OG:
    def __init__(self, w):
        self.w = w
        self.graph = Graph(FSet(w.node)); self.input_nodes = FSeq(w.inp); self.output_nodes = FSeq(w.out)
        self.measurements = FMap(w.oc, lambda e: Label(w, e))
    def _nb(self, s, f):
        tag = getattr(s, "tag", None)
        if tag is None:
            if isinstance(s, (set, frozenset)) and not s: return FSet(lambda x: z3.BoolVal(False), True)
            if isinstance(s, FSet) and z3.is_false(z3.simplify(s.mem(PROBE))): return FSet(lambda x: z3.BoolVal(False), True)
            raise Unfit("neighbourhood of another set")
        return FSet(lambda x: f(tag, x), True)
    def odd_neighbors(self, s): return self._nb(s, self.w.odd)
    def neighbors(self, s): return self._nb(s, self.w.nb)
    def __getattr__(self, a): raise Unfit(f"open graph attribute {a}")

class World:
    """nodes, inputs, outputs, labels, layers, and the sets attached to nodes (correction function or corrections)."""
    def __init__(self, eng: FEngine, outputs: bool | None = None):
        self.eng = eng
        f = lambda n: z3.Function(n, Lab, B)
        node, out, inp = f("node"), f("out"), f("inp")
        self.node, self.inp, self.out = node, inp, out
        self.oc = lambda x: z3.And(node(x), z3.Not(out(x)))
        self.lab, self.plane = z3.Function("lab", Lab, E3), z3.Function("plane", Lab, E3)
        self.cfdom, self.cf = f("cfdom"), z3.Function("cf", Lab, Lab, B)
        self.odd, self.nb = z3.Function("odd", Lab, Lab, B), z3.Function("nb", Lab, Lab, B)
        self.n = z3.Int("n_layers"); self.el = z3.Function("layer", I, Lab, B)
        eng.assume(self.n >= 0)
        eng.forall(Lab, lambda x: z3.And(z3.Implies(out(x), node(x)), z3.Implies(inp(x), node(x)), z3.ULT(self.lab(x), 6), z3.ULT(self.plane(x), 3), z3.Implies(z3.ULT(self.lab(x), 3), self.lab(x) == self.plane(x))))
        for r in (self.odd, self.nb): eng.forall(r, lambda u, x, r=r: z3.Implies(r(u, x), node(x)))
        self.layers = Layers(self.n, self.el); self.og = OG(self)
        # has the graph outputs?
        self.has_out = eng.choose()
        if self.has_out: self.o = eng.label("output"); eng.assume(out(self.o))
        else: eng.forall(Lab, lambda x: z3.Not(out(x)))
        eng.know("nonempty", self.has_out, out(PROBE))
        self.shift = 1 if self.has_out else 0
        if not eng.feasible(): raise Unfit("vacuous")
    def fmap(self, dom, rel): return FMap(dom, lambda e: FSet(lambda x: rel(e, x), tag=e))
    def measured_layer(self, k): return z3.And(k >= self.shift, k < self.n)
    # the general properties (of the layers), as violations over witnesses
    def layer_violations(self) -> dict[str, tuple[tuple, Callable]]:
        """name -> (sorts, formula): the property is violated iff the formula holds for some terms"""
        oc, el, m = self.oc, self.el, self.measured_layer
        return {
            "FirstLayer": (Lab, lambda x: z3.And(self.n > 0, z3.BoolVal(self.has_out), el(z3.IntVal(0), x) != self.out(x))),
            "NthLayer/foreign": (self.el, lambda k, x: z3.And(m(k), el(k, x), z3.Not(oc(x)))),
            "NthLayer/repeated": ((self.el, I), lambda k, x, l: z3.And(m(k), m(l), k != l, el(k, x), el(l, x))),
        }
    def good_layers(self):
        """assume the general properties of the layers"""
        for so, f in self.layer_violations().values(): self.eng.forall(so, lambda *t, f=f: z3.Not(f(*t)))
        self.eng.assume(self.n > 0)
    def not_later(self, ku, kv, v):
        """v is measured at the same time as, or before, the nodes of layer ku"""
        return z3.And(kv >= ku, kv < self.n, self.el(kv, v))

def judge_layers(eng, w, e, name):
    """A rejection of the partial order names a violated property; False if the reason is another one."""
    if name == "FirstLayer": eng.prove_exists(f"{name} is violated", *w.layer_violations()[name])
    elif name == "NthLayer":
        k = eng.layer_index
        if k is None: eng.prove("NthLayer: raised on an iteration", False); return True
        eng.solver.push()
        lv = w.layer_violations(); m = eng.label("member"); eng.assume(w.el(k, m))       # neither empty, ...
        for c in ("NthLayer/foreign", "NthLayer/repeated"):
            so, f = lv[c]; eng.forall(so, lambda *t, f=f: z3.Not(f(*t)))
        eng.prove("NthLayer is violated", False); eng.solver.pop()
    elif name == "IncorrectNodes":
        eng.solver.push(); at = z3.Function("at", Lab, I)
        eng.forall(Lab, lambda x: z3.Implies(z3.And(w.node(x), z3.Not(w.out(x))), z3.And(w.measured_layer(at(x)), w.el(at(x), x))))
        eng.prove("IncorrectNodes: a node belongs to no layer", False); eng.solver.pop()
    else: return False
    return True

LAYER_CLAUSES = ["FirstLayer", "NthLayer/foreign", "NthLayer/repeated", "NthLayer/empty", "IncorrectNodes"]

def violate(eng, w, name, table):
    """Assume that the named property is violated; returns the witnesses (nodes, layers)."""
    L = lambda n: eng.label(n); guides, layers = [], []
    if name in table:
        so, f = table[name]; so = so if isinstance(so, tuple) else (so,)
        so = [t for s in so for t in ([s] if s in (Lab, I) else [s.domain(i) for i in range(s.arity())])]
        ts = [L("wit") if s == Lab else z3.Int(eng.fresh("layer_wit")) for s in so]
        eng.assume(f(*ts)); guides = [t for t, s in zip(ts, so) if s == Lab]; layers = [t for t, s in zip(ts, so) if s == I]
    elif name == "NthLayer/empty":
        k = z3.Int(eng.fresh("layer_wit")); eng.assume(w.measured_layer(k)); eng.forall(Lab, lambda x: z3.Not(w.el(k, x))); layers = [k]
    elif name == "IncorrectNodes":
        x = L("wit"); eng.assume(z3.And(w.n > 0, w.oc(x))); eng.forall(I, lambda k: z3.Implies(w.measured_layer(k), z3.Not(w.el(k, x)))); guides = [x]
    else: raise Unfit(name)
    return guides, layers

def attempt(ob, label, nroles, harness, roles_of):
    """Explore `harness(eng)`; the roles of the sets a loop fills are matched with the sets by trying the orders."""
    best = None
    for order in itertools.permutations(range(nroles)):
        eng = FEngine(ob, label)
        eng.explore(lambda: harness(eng), roles=roles_of, order=order)
        bad = sum(1 for a in eng.agg.values() if a["bad"] or a["unk"])
        if best is None or bad < best[0]: best = (bad, eng)
        if not any("loop invariant" in l and (a["bad"] or a["unk"]) for l, a in eng.agg.items()): break
    return best[1]
