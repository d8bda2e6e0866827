from __future__ import annotations
import itertools, math, random, types
import numpy as np
import networkx as nx
from gv import boot, exact, gen as G, loops, mats as M, psim, csim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.exact import Ang, Choices, FAng, Var, isinst, lp_array, modang, proportional
from gv.extract import rebind
from graphix import command, instruction as I, transpiler as tr
from graphix.command import CommandKind as K
from graphix.fundamentals import Axis, Plane, Sign
from graphix.instruction import InstructionKind as IK
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.transpiler import Circuit

T = "graphix/transpiler.py:"
P = Prop("C22", "proof",
    "Gate decompositions are executed on an arbitrary angle and compared exactly (for all angles) with the gate. One iteration of the transpilation loop is executed on an arbitrary "
    "register and graph: it applies the J / CZ / M gadgets, whose linear maps are compared exactly. The flow to pattern part is C10-C11; whole transpilations are the bounded part.",
    ["gates only act on the qubits they name (exact comparison on three qubits, every placement)", "CZ gates commute with one another and with projections of other nodes",
     "the assembly of outputs, corrections and layers after the loop is checked on enumerated gate sequences (bounded)", "flows become patterns as proved or checked in C10, C11"],
    ["networkx graphs"])

A = Var("a")

def gates(q=(0, 1, 2), angle=A):
    x, y, z = q
    return [I.CCX(x, (y, z)), I.RZZ(x, y, angle), I.CNOT(x, y), I.CZ((x, y)), I.SWAP((x, y)), I.H(x), I.S(x), I.X(x), I.Y(x), I.Z(x), I.I(x), I.RX(x, angle), I.RY(x, angle), I.RZ(x, angle), I.J(x, angle)]

def same_gate(instrs, ins):
    return proportional(csim.unitary(list(instrs), 3, True), csim.unitary([ins], 3, True))

def float_gate(instrs, ins): return M.phase_equal(csim.unitary(list(instrs), 3), csim.unitary([ins], 3))

DEC = {"decompose_rzz": IK.RZZ, "decompose_ccx": IK.CCX, "decompose_cnot": IK.CNOT, "decompose_swap": IK.SWAP, "decompose_y": IK.Y, "decompose_rx": IK.RX, "decompose_ry": IK.RY, "decompose_rz": IK.RZ}

@P.proof("gate decompositions", [T + f for f in DEC] + [T + "instructions_to_jcz"], "exact algebra in e^{i pi a}")
def decompositions(ob):
    for q in itertools.permutations(range(3)):
        for g in gates(q):
            tag = f"{g.kind.name} on {q}"
            for nm, k in DEC.items():
                if k != g.kind: continue
                f = getattr(tr, nm, None)
                if f is None: raise Unfit(f"no {nm}")
                real = lambda a, f=f, k=k, q=q: (lambda g: float_gate(f(g), g))(next(h for h in gates(q, a) if h.kind == k))
                ob.exact(f"{nm} {q}: the sequence is the gate, for all angles", same_gate(f(g), g), ["a"], real)
            real = lambda a, k=g.kind, q=q: (lambda g: float_gate(tr.instructions_to_jcz([g]), g))(next(h for h in gates(q, a) if h.kind == k))
            seq = list(tr.instructions_to_jcz([g]))
            ob.check(f"jcz of {tag}: J and CZ only, on the qubits of the gate", all(i.kind in (IK.J, IK.CZ) for i in seq) and {x for i in seq for x in (i.targets if i.kind == IK.CZ else (i.target,))} <= set(q))
            ob.exact(f"jcz of {tag}: the sequence is the gate, for all angles", same_gate(seq, g), ["a"], real)
    for ax in Axis:
        m = I.M(2, ax); ob.check(f"jcz of a measurement of {ax.name} is the measurement", list(tr.instructions_to_jcz([m])) == [m])
    allg = [*gates(), *[I.M(2, a) for a in Axis]]
    ob.check("every kind of gate is covered", {g.kind for g in allg} == set(IK))
    # the sequence of a list is the concatenation of the sequences (the loop keeps no state), lazily and in order
    key = lambda i: (i.kind, i.target if hasattr(i, "target") else i.targets, repr(getattr(i, "angle", getattr(i, "axis", None))))
    one = {id(g): [key(i) for i in tr.instructions_to_jcz([g])] for g in allg}
    ob.check("no gates, no sequence", list(tr.instructions_to_jcz([])) == [])
    for g, h in itertools.product(allg, repeat=2):
        ob.check(f"{g.kind.name} then {h.kind.name}: concatenation", [key(i) for i in tr.instructions_to_jcz(iter([g, h]))] == one[id(g)] + one[id(h)])

@P.proof("angles", [T + "normalize_angle"], "exact algebra")
def angles(ob):
    x = Var("x"); ob.check("parameters are returned unchanged", tr.normalize_angle(x) is x)
    a = FAng(x); f = rebind(tr.normalize_angle)
    for _ in Choices():
        r = f(a)
        ok = isinstance(r, FAng) and r.a.same(x, 2)
        ob.exact("the direction of the angle is kept, for all floats", ok, ["x"], lambda x: abs(np.exp(1j * math.pi * tr.normalize_angle(x)) - np.exp(1j * math.pi * x)) < 1e-9)

class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __lt__ = __int__ = __index__ = __bool__ = _no

class Fresh(Tok):
    """The first unused node: only +1 is defined."""
    def __init__(self, k=0): super().__init__(f"n+{k}"); self.k = k
    def __add__(self, o):
        if not isinstance(o, int): raise Unfit("n_nodes")
        return Fresh(self.k + o)
    __radd__ = __add__
    def __eq__(self, o): return isinstance(o, Fresh) and o.k == self.k
    def __hash__(self): return hash(("fresh", self.k))

class RecGraph:
    """An arbitrary graph: membership of an edge may go either way; changes are recorded."""
    def __init__(self): self.ops = []; self.known = {}
    def has_edge(self, u, v):
        k = frozenset((u, v))
        if k not in self.known: self.known[k] = Choices.cur.choose()
        return self.known[k]
    def add_edge(self, u, v): self.ops.append(("add", frozenset((u, v)))); self.known[frozenset((u, v))] = True
    def remove_edge(self, u, v): self.ops.append(("remove", frozenset((u, v)))); self.known[frozenset((u, v))] = False
    def add_node(self, u): self.ops.append(("node", u))
    def __getattr__(self, a): raise Unfit(f"graph.{a}")

def loop_state():
    t = [Tok(f"t{i}") for i in range(3)]
    old = Tok("old")
    return t, dict(self=Tok("self"), indices=list(t), n_nodes=Fresh(), measurements={old: Tok("om")}, classical_outputs={Tok("oc"): Tok("ocm")}, inputs=[Tok("in")], graph=RecGraph(), x_corrections={old: Tok("ox")})

@P.proof("transpilation step", [T + "Circuit.transpile_to_causalflow (loop body)"], "inductive step of the extracted loop body; exact gadget algebra")
def trans_step(ob):
    run = loops.step(Circuit.transpile_to_causalflow, 0)
    def frame(s0, d, *changed):
        for k in ("measurements", "classical_outputs", "x_corrections"):
            a, b = s0[k], d[k]
            if not all(x in b and b[x] is a[x] for x in a): return False
            if k not in changed and len(a) != len(b): return False
        return True
    snap = lambda s: {k: (dict(v) if isinstance(v, dict) else v) for k, v in s.items()}
    for q in range(3):
        for kind, ang in (("parameter", Ang({"a": 1.0})), ("expression", Ang({"a": 2.0, "b": -1.0}, .5)), ("float", FAng(Ang({"a": 1.0}))), ("number", 0), ("number", 0.5), ("number", -1)):
            for _ in Choices():
                t, s = loop_state(); s0 = snap(s); d = run(I.J(q, ang), **s); n = Fresh(0)
                if d["__exit__"] != "next": raise Unfit("loop exit")
                tag = f"J({kind} {ang if kind == 'number' else ''}) on qubit {q}"
                ob.structural(f"{tag}: the fresh node becomes the current node of the qubit", d["indices"] == [n if i == q else t[i] for i in range(3)] and d["n_nodes"] == Fresh(1))
                ob.structural(f"{tag}: it is linked with the previous node only", d["graph"].ops in ([("add", frozenset((t[q], n)))], [("node", n), ("add", frozenset((t[q], n)))]))
                m = d["measurements"].get(t[q])
                ob.structural(f"{tag}: the previous node is measured and corrected by the fresh one, nothing else changes", frame(s0, d, "measurements", "x_corrections") and len(d["measurements"]) == 2 and len(d["x_corrections"]) == 2 and d["x_corrections"].get(t[q]) == {n})
                if not isinstance(m, BlochMeasurement): raise Unfit("measurement of another type")
                un = lambda z: z.a if isinstance(z, FAng) else z if isinstance(z, Ang) else Ang({}, z)
                # lemma: <m| CZ (1 x |+>) is proportional to J(angle)
                sim = psim.Sim([0], True); sim.prep(1, np.array([M.S2, M.S2])); sim.cz(0, 1)
                sim.project(0, psim.bra(BlochMeasurement(un(m.angle), m.plane), 0, True), 0)
                got = sim.out([1]); want = csim.unitary([I.J(0, un(ang))], 1, True)
                ob.exact(f"{tag}: the measured gadget is J, for all angles", proportional(got, want), ["a", "b"], lambda a, b: real_j(q, a))
    for u, v in itertools.permutations(range(3), 2):
        for _ in Choices():
            t, s = loop_state(); s0 = snap(s); g = s["graph"]; d = run(I.CZ((u, v)), **s)
            if d["__exit__"] != "next": raise Unfit("loop exit")
            e = frozenset((t[u], t[v]))
            if not g.ops: raise Unfit("no change")
            ob.structural(f"CZ on {u}, {v}: the edge is toggled ({len(g.ops)})", len(g.ops) == 1 and g.ops[0][1] == e and e in g.known and frame(s0, d) and d["indices"] == t and d["n_nodes"] == Fresh(0))
            ob.structural(f"CZ on {u}, {v}: present edges are removed, absent ones added", (g.ops[0][0] == "add") == g.known[e])
    cz = np.diag([1, 1, 1, -1])
    ob.check("CZ is an involution", np.array_equal(cz @ cz, np.eye(4)))
    for q, ax in itertools.product(range(3), Axis):
        for _ in Choices():
            t, s = loop_state(); s0 = snap(s); d = run(I.M(q, ax), **s)
            c = d["classical_outputs"].get(t[q])
            ob.structural(f"M {ax.name} on {q}: the node is kept for a final Pauli measurement without domains, after the earlier ones", frame(s0, d, "classical_outputs") and list(d["classical_outputs"])[-1] is t[q] and isinstance(c, command.M) and c.node is t[q]
                     and c.measurement == PauliMeasurement(ax, Sign.PLUS) and not c.s_domain and not c.t_domain and d["indices"] == [None if i == q else t[i] for i in range(3)] and not d["graph"].ops)
    for g in (I.J(1, 0), I.CZ((0, 1)), I.CZ((1, 0)), I.M(1, Axis.X)):
        t, s = loop_state(); s["indices"][1] = None
        try: run(g, **s)
        except Unfit: raise
        except Exception: ok = True
        else: ok = False
        ob.check(f"{g.kind.name} on a measured qubit is refused", ok)

def real_j(q, a):
    c = Circuit(3); c.j(q, a); return check(c, None) is None

@P.proof("before and after the loop", [T + "Circuit.transpile_to_causalflow (around the loop)"], "recording stand-ins for the callees; one node of each kind after the loop")
def around(ob):
    """Before the loop the qubits are their own nodes; after it the outputs are the current nodes of the remaining qubits in their order, then the measured ones in the order of
    measurement; the Z corrections of a node are the other neighbours of its corrector; the layers are those of the corrections (contract of the callee) and the flow is made of these."""
    import networkx as nx
    fn = Circuit.transpile_to_causalflow
    J, M_, CZ = (lambda q: I.J(q, .25)), (lambda q: I.M(q, Axis.Y)), (lambda a, b: I.CZ((a, b)))
    progs = [(w, ()) for w in range(0, 6)]
    for q in range(3): progs += [(3, (J(q),)), (3, (M_(q),)), (3, (J(q), J(q))), (3, (J(q), M_(q)))]
    for a, b in itertools.permutations(range(3), 2): progs += [(3, (CZ(a, b),)), (3, (M_(a), M_(b))), (3, (CZ(a, b), J(a), M_(b))), (3, (CZ(a, b), J(a), CZ(a, b), J(b)))]
    for a, b, c in itertools.permutations(range(3)): progs += [(3, (M_(a), M_(b), M_(c))), (3, (M_(a), J(b), M_(c))), (3, (CZ(a, b), CZ(b, c), J(b), J(b)))]
    for w, prog in progs:
        seen = []; told = []
        class Layers: pass
        lay = Layers()
        def go():
            me = types.SimpleNamespace(width=w, instruction=Tok("program"))
            r = rebind(fn, instructions_to_jcz=lambda i: (told.append(i), iter(prog))[1], _corrections_to_partial_order_layers=lambda og, x, z: (seen.append((og, dict(x), dict(z))), lay)[1],
                       CausalFlow=lambda og, cf, layers: ("flow", og, dict(cf), layers))(me)
            cur, n, edges, xc, meas, mes = list(range(w)), w, set(), {}, [], {}
            for i in prog:
                if isinstance(i, I.J): edges.add(frozenset((cur[i.target], n))); xc[cur[i.target]] = {n}; mes[cur[i.target]] = i; cur[i.target] = n; n += 1
                elif isinstance(i, I.M): meas.append(cur[i.target]); cur[i.target] = None
                else: edges ^= {frozenset((cur[i.targets[0]], cur[i.targets[1]]))}
            outs = [v for v in cur if v is not None] + meas
            nb = lambda v: {x for e in edges if v in e for x in e if x != v}
            zc = {v: z for v, (c,) in xc.items() if (z := nb(c) - {v})}
            tag, og, cf, layers = r.flow; out = r.classical_outputs
            return (told == [me.instruction] and tag == "flow" and cf == xc and layers is lay and [(a is og, b, c) for a, b, c in seen] == [(True, xc, zc)] and set(og.graph.nodes) == set(range(n))
                    and {frozenset(e) for e in og.graph.edges} == edges and list(og.input_nodes) == list(range(w)) and list(og.output_nodes) == outs and set(og.measurements) == set(mes)
                    and list(out) == meas and all(c.node == v and c.measurement == PauliMeasurement(Axis.Y) for v, c in out.items()))
        try: ok = go()
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"width {w}, {[repr(i) for i in prog]}: graph, ports, corrections and layers", ok)
    # one node of each kind
    v, c, x, y = (Tok(n) for n in "vcxy")
    for others in ((), (x,), (x, y)):
        for linked in (True, False):
            z = {y: Tok("before")}; asked = []
            try:
                nbs = {*others, *([v] if linked else [])}
                d = loops.step(fn, 1)((v, {c}), og=types.SimpleNamespace(neighbors=lambda s: (asked.append(set(s)), set(nbs))[1]), z_corrections=dict(z))
                ok = d["__exit__"] == "next" and asked == [{c}] and d["z_corrections"] == {**z, **({v: set(others)} if others else {})}
            except Exception: ok = False      # noqa: BLE001
            ob.structural(f"Z corrections of a node whose corrector has {len(others)} other neighbours ({'linked' if linked else 'not linked'})", ok)

@P.proof("pattern assembly", [T + "TranspiledFlow.to_pattern", T + "Circuit.transpile"], "recording stand-ins")
def assembly(ob):
    # to_pattern: standard space-optimal pattern of the flow's corrections, then the classical measurements in their order
    class Pat(list):
        def __init__(self, tag): self.tag = tag
    for k in range(3):
        ms = {Tok(f"n{i}"): Tok(f"m{i}") for i in range(k)}
        xz = types.SimpleNamespace(to_pattern=lambda: "the pattern of the corrections")
        flow = types.SimpleNamespace(to_xzcorrections=lambda: xz)
        class Std:
            @staticmethod
            def from_pattern(p):
                if p != "the pattern of the corrections": raise Unfit("standard form of something else")
                return types.SimpleNamespace(to_space_optimal_pattern=lambda: Pat("standard"))
        f = rebind(tr.TranspiledFlow.to_pattern, StandardizedPattern=Std)
        r = f(types.SimpleNamespace(flow=flow, classical_outputs=ms))
        ob.structural(f"to_pattern with {k} measurements", isinstance(r.pattern, Pat) and list(r.pattern) == list(ms.values()) and r.classical_outputs == tuple(ms))
    for w in range(4):
        for perm in itertools.permutations(range(w)):
            nodes = [Tok(f"o{i}") for i in range(w)]; rec = []
            pat = types.SimpleNamespace(output_nodes=nodes, reorder_output_nodes=lambda o: rec.append(tuple(o)))
            res = types.SimpleNamespace(pattern=pat, classical_outputs=(Tok("c"),))
            circ = types.SimpleNamespace(transpile_to_causalflow=lambda: types.SimpleNamespace(to_pattern=lambda: res))
            sw = tr.TranspileSwapsResult(circ, tuple(tr.OutputIndex(tr.OutputKind.Qubit, i) for i in perm))
            me = Circuit(w)
            f = rebind(Circuit.transpile, _transpile_swaps=lambda c, copy=False: sw if c is me and copy else (_ for _ in ()).throw(Unfit("swap elimination of something else")))
            r = f(me)
            ob.structural(f"transpile: outputs in the order of the original qubits {perm}", len(rec) == 1 and all(a is nodes[i] for a, i in zip(rec[0], perm)) and r.pattern is pat and r.classical_outputs is res.classical_outputs)

# -- bounded --------------------------------------------------------------------------------------------------------------
def check(c, r, **kw):
    """None, or what is wrong with the transpilation of `c` (all branches, all inputs)."""
    before = [repr(i) for i in c.instruction]; t = c.transpile(**kw); p = t.pattern
    if [repr(i) for i in c.instruction] != before: return "the circuit was modified"
    nm = csim.n_meas(c)
    if len(t.classical_outputs) != nm: return f"{len(t.classical_outputs)} classical outputs for {nm} measurements"
    if len(p.input_nodes) != c.width or len(p.output_nodes) != c.width - nm: return "inputs or outputs"
    ms = psim.measured(p); other = [n for n in ms if n not in t.classical_outputs]
    p.check_runnability()
    it = psim.outcomes_iter(ms) if 2 ** len(ms) <= 64 or r is None and len(ms) < 8 else (dict(zip(ms, (((r or random).randrange(2)) for _ in ms))) for _ in range(24))
    maps = {}
    for o in it:
        a, res = psim.branch(p, o); key = tuple(res[n] for n in t.classical_outputs)
        if key not in maps: maps[key] = csim.run(c, key)
        b = maps[key]
        if not M.prop_equal(a, b): return f"branch {o}: the map of the pattern is not the one of the circuit"
        if abs(np.linalg.norm(a) ** 2 * 2 ** len(other) - np.linalg.norm(b) ** 2) > 1e-6 * max(1, np.linalg.norm(b) ** 2): return f"branch {o}: probability"
    return None

@P.bounded("transpiled circuits", [T + "Circuit.transpile", T + "Circuit.transpile_to_causalflow", T + "TranspiledFlow.to_pattern"],
           lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 5), lambda r: r.randrange(0, 8), lambda r: r.choice([0, 0, .15, .3]), lambda r: r.random() < .7),
           "random circuits on <= 4 qubits, <= 7 gates of all kinds, measurements anywhere; all outcome branches up to 64, else 24 random ones", quick=14, thorough=240)
def transpiled(case):
    seed, w, d, meas, sw = case; r = random.Random(seed)
    c = G.circuit(r, w, d, measure=meas, ccx=.03)
    if sum(len(list(tr.instructions_to_jcz([i]))) for i in c.instruction) > 40: return "skip"
    return check(c, r, transpile_swaps=sw)

@P.bounded("transpiled parametric circuits", [T + "Circuit.transpile"], lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 4), lambda r: r.randrange(1, 5)),
           "random circuits on <= 3 qubits, <= 4 gates with affine angles over 2 variables; exact for all angles, 4 random branches", quick=8, thorough=120)
def parametric(case):
    seed, w, d = case; r = random.Random(seed); vs = [Var("a"), Var("b")]
    def ang(r):
        e = r.choice(vs)
        if r.random() < .4: e = e * r.choice([-1, 2, .5])
        if r.random() < .4: e = e + r.choice([.5, 1, .25, r.choice(vs)])
        return e if isinstance(e, Ang) else G.angle(r)
    c = G.circuit(r, w, d, kinds=["H", "S", "RX", "RY", "RZ", "J", "CNOT", "CZ", "SWAP", "RZZ"], angle_fn=ang)
    p = c.transpile().pattern
    ms = psim.measured(p)
    if len(ms) > 12: return "skip"
    want = csim.run(c, (), symbolic=True)
    for _ in range(3):
        o = {n: r.randrange(2) for n in ms}
        if not proportional(psim.branch(p, o, True)[0], want): return f"branch {o} differs from the circuit for some angles"
    return None

def small(rng, tier):
    gs = [["J", q] for q in range(2)] + [["CZ"], ["CZr"], ["SWAP"]] + [["M", q] for q in range(2)]
    for k in range(0, 6 if tier == "quick" else 7):
        for s in itertools.product(range(len(gs)), repeat=k): yield [[gs[i] for i in s]]

@P.bounded("assembly after the loop", [T + "Circuit.transpile_to_causalflow"], small, "all sequences of at most 5 (thorough: 6) gates among J, CZ, SWAP, M on two qubits", quick=12, thorough=120)
def small_seq(case):
    c = Circuit(2); k = 0
    for g in case[0]:
        k += 1
        if g[0] == "J": q = (g[1],)
        elif g[0] == "M": q = (g[1],)
        else: q = (0, 1)
        if not set(q) <= c.active_qubits: return "skip"
        if g[0] == "J": c.j(g[1], .37 * k)
        elif g[0] == "M": c.m(g[1], list(Axis)[k % 3])
        elif g[0] == "SWAP": c.swap(0, 1)
        else: c.cz(*((0, 1) if g[0] == "CZ" else (1, 0)))
    return check(c, None)
