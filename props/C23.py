from __future__ import annotations
import itertools, math, random, types
import numpy as np
from gv import boot, exact, gen as G, loops, mats as M, csim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.exact import Ang, Choices, FAng, Var, equal, lp_array, proportional
from gv.extract import rebind
from graphix import instruction as I, transpiler as tr
from graphix.branch_selector import FixedBranchSelector
from graphix.fundamentals import Axis, Plane, Sign
from graphix.instruction import InstructionKind as IK, InstructionVisitor
from graphix.measurements import PauliMeasurement
from graphix.transpiler import Circuit, OutputIndex, OutputKind, TranspileSwapsResult, transpile_swaps

T = "graphix/transpiler.py:"
P = Prop("C23", "proof",
    "One iteration of each rewriting loop is executed on an arbitrary state and every gate with opaque qubits (the invariant relates the original register to the swapped one); "
    "gate identities used are compared exactly for all angles; visitors are executed with opaque qubits, angles and axes. Whole circuits are the bounded part.",
    ["gates only act on the qubits they name"], ["numpy"])

class Tok:
    """An opaque value."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"<{self.n}>"
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __lt__ = __int__ = __index__ = __bool__ = __add__ = __mul__ = __neg__ = _no

def gates(q, a, axes=tuple(Axis)):
    x, y, z = q
    return [I.CCX(x, (y, z)), I.RZZ(x, y, a), I.CNOT(x, y), I.CZ((x, y)), I.SWAP((x, y)), I.H(x), I.S(x), I.X(x), I.Y(x), I.Z(x), I.I(x), I.RX(x, a), I.RY(x, a), I.RZ(x, a), I.J(x, a), *[I.M(x, b) for b in axes]]

def fields(i): return {k: v for k, v in vars(i).items() if k != "kind"}
def kindname(i): return f"{i.kind.name}{'' if i.kind != IK.M else ' ' + getattr(i.axis, 'name', '')}"

def mapped(i, ref, f, ang=None, axis=None):
    """i is ref with qubits mapped by f (opaque values compared by identity)."""
    if type(i) is not type(ref) or i.kind != ref.kind: return False
    for k, v in fields(ref).items():
        w = getattr(i, k)
        if k in ("target", "control"): ok = w is f(v)
        elif k in ("targets", "controls"): ok = isinstance(w, tuple) and len(w) == len(v) and all(a is f(b) for a, b in zip(w, v))
        elif k == "angle": ok = w is (ang(v) if ang else v)
        elif k == "axis": ok = w is (axis(v) if axis else v)
        else: raise Unfit(f"field {k}")
        if not ok: return False
    return True

@P.proof("visitors", ["graphix/instruction.py:" + c + ".visit" for c in ("CCX", "RZZ", "CNOT", "CZ", "SWAP", "SingleTargetInstruction", "M", "RotationInstruction")] + ["graphix/instruction.py:InstructionVisitor", T + "Circuit.visit", T + "Circuit.apply_angle"], "opaque arguments per gate")
def visitors(ob):
    ob.check("every kind of gate is covered", {g.kind for g in gates(range(3), 0)} == set(IK))
    qs = [Tok(f"q{i}") for i in range(3)]; a = Tok("angle"); ax = Tok("axis")
    Q, AN, AX = {q: Tok("new " + q.n) for q in qs}, Tok("new angle"), Tok("new axis")
    class V(InstructionVisitor):
        def __init__(self): self.seen = []
        def visit_qubit(self, q): self.seen.append(q); return Q[q]
        def visit_angle(self, x): return AN if x is a else (_ for _ in ()).throw(Unfit("angle"))
        def visit_axis(self, x): return AX if x is ax else (_ for _ in ()).throw(Unfit("axis"))
    for copy in (False, True):
        for ref in gates(qs, a, (ax,)):
            g = type(ref)(**fields(ref)); r = g.visit(V(), copy=copy)
            ob.check(f"{ref.kind.name}, copy={copy}: every qubit, angle and axis is rewritten", mapped(r, ref, Q.get, lambda v: AN, lambda v: AX))
            ob.check(f"{ref.kind.name}, copy={copy}: {'the original is left alone' if copy else 'in place'}", (r is g) != copy and (not copy or mapped(g, ref, lambda q: q)))
            g = type(ref)(**fields(ref)); r = g.visit(InstructionVisitor(), copy=copy)
            ob.check(f"{ref.kind.name}, copy={copy}: the default visitor changes nothing", mapped(r, ref, lambda q: q) and (r is g) != copy)
    # circuits: every gate once, in order, by induction over the list (lists of up to two gates, any state in between)
    class Sh(InstructionVisitor):
        def visit_qubit(self, q): return (q + 1) % 3
        def visit_axis(self, x): return {Axis.X: Axis.Y, Axis.Y: Axis.Z, Axis.Z: Axis.X}[x]
        def visit_angle(self, x): return x + 1
    cyc = lambda q: (q + 1) % 3
    def plain(i): return (i.kind.name, {k: v for k, v in fields(i).items()})
    for copy in (False, True):
        for g, h in itertools.product(gates((0, 1, 2), .25), gates((2, 0, 1), .5)):
            try: c = Circuit(3, [g, h])
            except AssertionError: continue
            before = [plain(i) for i in c.instruction]; want = [plain(i.visit(Sh(), copy=True)) for i in c.instruction]; r = c.visit(Sh(), copy=copy)
            ob.check(f"circuit {g.kind.name}, {h.kind.name}, copy={copy}", [plain(i) for i in r.instruction] == want and (r is c) != copy and (not copy or [plain(i) for i in c.instruction] == before) and r.width == 3)
    f = lambda x: x * 2 + 1
    for copy in (False, True):
        for g in gates((0, 1, 2), .25):
            c = Circuit(3, [g]); r = c.apply_angle(f, copy=copy)
            ob.check(f"apply_angle on {kindname(g)}, copy={copy}", [plain(i) for i in r.instruction] == [(g.kind.name, {k: f(v) if k == "angle" else v for k, v in fields(g).items()})] and (r is c) != copy)

@P.proof("builders", [T + "Circuit." + m for m in ("__init__", "add", "extend", "cnot", "swap", "cz", "h", "s", "x", "y", "z", "rx", "ry", "rz", "j", "r", "rzz", "ccx", "i", "m")], "opaque arguments per gate")
def builders(ob):
    """A gate is recorded with its arguments; it needs all its qubits to be active; a measurement makes its qubit inactive."""
    qs = [Tok(f"q{i}") for i in range(3)]; a = Tok("angle")
    def methods(c): return {IK.CCX: lambda g: c.ccx(g.controls[0], g.controls[1], g.target), IK.RZZ: lambda g: c.rzz(g.control, g.target, g.angle), IK.CNOT: lambda g: c.cnot(g.control, g.target), IK.CZ: lambda g: c.cz(*g.targets),
        IK.SWAP: lambda g: c.swap(*g.targets), **{k: (lambda g, k=k: getattr(c, k.name.lower())(g.target)) for k in (IK.H, IK.S, IK.X, IK.Y, IK.Z, IK.I)}, **{k: (lambda g, k=k: getattr(c, k.name.lower())(g.target, g.angle)) for k in (IK.RX, IK.RY, IK.RZ, IK.J)}, IK.M: lambda g: c.m(g.target, g.axis)}
    def used(g): return {q for k, v in fields(g).items() if k in ("target", "control", "targets", "controls") for q in (v if isinstance(v, tuple) else (v,))}
    for g in gates(qs, a):
        for how in ("method", "add", "extend", "__init__"):
            for inactive in [None, *range(3)]:
                c = Circuit(3); act = {q for i, q in enumerate(qs) if i != inactive}; c.active_qubits = set(act); old = Tok("earlier gate"); c.instruction = [old]
                if how == "__init__":
                    if inactive is not None: continue
                    rec = []; f = rebind(Circuit.__init__, range=lambda n: qs)
                    f(c, 3, iter([g])); c.instruction = [old, *c.instruction]
                    ok = True
                else:
                    try: (methods(c)[g.kind](g) if how == "method" else c.add(g) if how == "add" else c.extend(iter([g]))); ok = True
                    except AssertionError: ok = False
                if ok: good = len(c.instruction) == 2 and c.instruction[0] is old and mapped(c.instruction[1], g, lambda q: q) and used(g) <= act and c.active_qubits == act - (used(g) if g.kind == IK.M else set())
                else: good = not used(g) <= act and c.instruction == [old] and c.active_qubits == act
                ob.check(f"{kindname(g)} by {how}, {'all qubits active' if inactive is None else f'{qs[inactive]} inactive'}", good)
    for k in (IK.CNOT, IK.CZ, IK.SWAP, IK.CCX):
        for q in [(0, 0, 1), (0, 1, 0), (0, 1, 1)]:
            g = next(h for h in gates([qs[i] for i in q], a) if h.kind == k)
            n = sum(2 if isinstance(v, tuple) else 1 for kk, v in fields(g).items())
            if len(used(g)) == n: continue
            c = Circuit(3); c.active_qubits = set(qs)
            try: c.add(g); ok = False
            except AssertionError: ok = not c.instruction
            ob.check(f"{k.name} twice on the same qubit is refused {q}", ok)
    for ax, k in ((Axis.X, IK.RX), (Axis.Y, IK.RY), (Axis.Z, IK.RZ)):
        c = Circuit(3); c.active_qubits = set(qs); c.r(qs[1], ax, a); ob.check(f"rotation about {ax.name}", len(c.instruction) == 1 and c.instruction[0].kind == k and c.instruction[0].target is qs[1] and c.instruction[0].angle is a)

class Rec:
    """Recording circuit."""
    def __init__(self): self.out = []
    def add(self, i): self.out.append(i)
    def __getattr__(self, nm):
        def f(*a, **k):
            c = Circuit(0); c.active_qubits = {x for x in [*a, *k.values()] if isinstance(x, (Tok, int))}
            getattr(c, nm)(*a, **k); self.out += c.instruction
        if not hasattr(Circuit, nm): raise AttributeError(nm)
        return f
    def extend(self, xs): self.out += list(xs)

@P.proof("swap elimination step", [T + "transpile_swaps (loop body)", T + "_TranspileSwapVisitor.visit_qubit"], "inductive step of the extracted loop body, opaque indices")
def swaps(ob):
    """Invariant: original qubit q is at outputs[q].index of the rewritten circuit, or is the measurement of that index."""
    run = loops.step(transpile_swaps, 0); VC = need(tr, "_TranspileSwapVisitor")
    for copy in (False, True):
        for perm in itertools.permutations(range(3)):
            for ref in gates(perm, Tok("angle")):
                v = VC(3); at = [Tok(f"place of {i}") for i in range(3)]; v.outputs = [OutputIndex(OutputKind.Qubit, t) for t in at]; old = list(v.outputs)
                class Idx(Tok):
                    def __add__(self, o): return ("next", o)
                    __radd__ = __add__
                mi = Idx("number of measurements"); rec = Rec(); g = type(ref)(**fields(ref)); tag = f"{kindname(ref)} on {perm}, copy={copy}"
                d = run(g, circuit=Tok("circuit"), copy=copy, new_circuit=rec, visitor=v, measurement_index=mi)
                if d["__exit__"] != "next": raise Unfit("loop exit")
                if copy: ob.check(f"{tag}: the original gate is left alone", mapped(g, ref, lambda q: q))
                if ref.kind == IK.SWAP:
                    x, y = ref.targets
                    ob.structural(f"{tag}: places are exchanged, no gate", not rec.out and v.outputs[x] is old[y] and v.outputs[y] is old[x] and all(v.outputs[i] is old[i] for i in range(3) if i not in (x, y)) and d["measurement_index"] is mi)
                else:
                    ob.structural(f"{tag}: the gate acts on the current places", len(rec.out) == 1 and mapped(rec.out[0], ref, lambda q: at[q]))
                    if ref.kind == IK.M:
                        o = v.outputs[ref.target]
                        ob.structural(f"{tag}: the qubit becomes that measurement, the others stay", o.kind == OutputKind.Bit and o.index is mi and all(v.outputs[i] is old[i] for i in range(3) if i != ref.target) and d["measurement_index"] == ("next", 1))
                    else: ob.structural(f"{tag}: places are unchanged", all(a is b for a, b in zip(v.outputs, old)) and d["measurement_index"] is mi)
    for ref in gates((0, 1, 2), Tok("angle")):
        for bad in range(3):
            v = VC(3); v.outputs = [OutputIndex(OutputKind.Bit if i == bad else OutputKind.Qubit, i) for i in range(3)]; rec = Rec()
            uses = any(bad in (x if isinstance(x, tuple) else (x,)) for k, x in fields(ref).items() if k in ("target", "control", "targets", "controls"))
            try: run(type(ref)(**fields(ref)), circuit=None, copy=True, new_circuit=rec, visitor=v, measurement_index=5); ok = not uses
            except Unfit: raise
            except Exception: ok = uses and not rec.out
            ob.check(f"{kindname(ref)}: {'refused after' if uses else 'not affected by'} a measurement of qubit {bad}", ok)
    for w in range(5):
        o = VC(w).outputs; ob.check(f"initially {w} qubits are at their place", [(x.kind, x.index) for x in o] == [(OutputKind.Qubit, i) for i in range(w)])

@P.proof("axis and J rewriting step", [T + "Circuit.transpile_measurements_to_z_axis (loop body)", T + "Circuit.transpile_j_to_rzh (loop body)"], "inductive step of the extracted loop body; exact algebra for all angles")
def axes(ob):
    A = Var("a"); qs = [Tok(f"q{i}") for i in range(3)]; num = {q: i for i, q in enumerate(qs)}
    def conc(g): return type(g)(**{k: (tuple(num[x] for x in v) if isinstance(v, tuple) else num[v]) if k in ("target", "control", "targets", "controls") else v for k, v in fields(g).items()})
    def branch(seq, o): return csim.run(None, (o,) if any(i.kind == IK.M for i in seq) else (), True, 3, [conc(i) for i in seq])
    for nm, f, var in (("transpile_measurements_to_z_axis", Circuit.transpile_measurements_to_z_axis, "circuit"), ("transpile_j_to_rzh", Circuit.transpile_j_to_rzh, "new_circuit")):
        run = loops.step(f, 0)
        for perm in itertools.permutations(qs):
            for ref in gates(perm, A):
                rec = Rec(); g = type(ref)(**fields(ref)); d = run(g, self=Tok("self"), **{var: rec})
                if d["__exit__"] != "next": raise Unfit("loop exit")
                tag = f"{nm}: {kindname(ref)} on {perm}"
                for o in (0, 1) if ref.kind == IK.M else (0,):
                    def real(a, ref=ref, o=o):
                        c = Circuit(3, [conc(type(ref)(**{**fields(ref), **({"angle": a} if "angle" in fields(ref) else {})}))]); r = getattr(c, nm)()
                        n = (o,) if ref.kind == IK.M else ()
                        return M.phase_equal(csim.run(c, n), csim.run(r, n))
                    ob.exact(f"{tag}, outcome {o}: same map, for all angles", proportional(branch(rec.out, o), branch([ref], o)), ["a"], real)
                ob.check(f"{tag}: the original gate is left alone", mapped(g, ref, lambda q: q))
                if nm.endswith("axis"): ob.check(f"{tag}: only Z measurements", all(i.kind != IK.M or i.axis == Axis.Z for i in rec.out) and sum(i.kind == IK.M for i in rec.out) == (ref.kind == IK.M))
                else: ob.check(f"{tag}: no J", all(i.kind != IK.J for i in rec.out))

@P.proof("simulation step", [T + "Circuit.simulate (loop body)"], "inductive step of the extracted loop body, exact matrices for all angles")
def simulation(ob):
    run = loops.step(Circuit.simulate, 0); A = Var("a")
    for perm in itertools.permutations(range(3)):
        for ref in gates([f"q{i}" for i in perm], A):
            place = {"q0": 10, "q1": 11, "q2": 12}; ops = []
            res = Tok("result"); rg = Tok("rng")
            st = types.SimpleNamespace(evolve_single=lambda m, q: ops.append((np.array(m, dtype=object), [q])), evolve=lambda m, q: ops.append((np.array(m, dtype=object), list(q))), swap=lambda qs: ops.append((M.SWAP, list(qs))), entangle=lambda qs: ops.append((M.CZ, list(qs))))
            meas = []
            class B:
                state = st; node_index = types.SimpleNamespace(index=lambda q: place[q])
                def measure(self, node, m, rng=None, stacklevel=1): meas.append((node, m, rng)); return res
                def __getattr__(self, a): raise Unfit(f"backend.{a}")
            cm = ["earlier"]; tag = f"{kindname(ref)} on {perm}"
            d = run(4, self=types.SimpleNamespace(instruction=[None] * 4 + [ref]), _backend=B(), classical_measures=cm, rng=rg, stacklevel=1)
            if d["__exit__"] != "next": raise Unfit("loop exit")
            if ref.kind == IK.M:
                ob.structural(f"{tag}: one measurement of its qubit along its axis, recorded last", not ops and len(meas) == 1 and meas[0][0] == ref.target and meas[0][1] == PauliMeasurement(ref.axis, Sign.PLUS) and meas[0][2] is rg and cm == ["earlier", res])
                continue
            ob.structural(f"{tag}: no measurement", not meas and cm == ["earlier"])
            from gv.psim import Sim
            s1 = Sim([10, 11, 12], True); [s1.op(m, q) for m, q in ops]; a = s1.out([10, 11, 12])
            i2 = type(ref)(**{k: (tuple(place[x] for x in v) if isinstance(v, tuple) else place[v]) if k in ("target", "control", "targets", "controls") else v for k, v in fields(ref).items()})
            s2 = Sim([10, 11, 12], True); s2.op(*csim.gate(i2)); b = s2.out([10, 11, 12])
            def real(a, ref=ref):
                c = Circuit(3); g = type(ref)(**{k: (tuple(int(x[1]) for x in v) if isinstance(v, tuple) else int(v[1])) if k in ("target", "control", "targets", "controls") else (a if k == "angle" else v) for k, v in fields(ref).items()})
                c.add(g); v = M.rand_state(np.random.default_rng(3), 3); sv = c.simulate(input_state=v).state
                return M.phase_equal(sv.psi.ravel(), csim.run(c) @ v)
            ob.exact(f"{tag}: the gate is applied to its qubits, for all angles", proportional(a, b), ["a"], real)

@P.proof("around the steps", [T + "transpile_swaps", T + "Circuit.simulate", T + "_initialize_backend", T + "Circuit.transpile_measurements_to_z_axis", T + "Circuit.transpile_j_to_rzh"], "evaluation: state before the first and after the last iteration, every kind of arguments")
def around(ob):
    """Before the first iteration the invariants of the steps hold; what is returned is the state after the last one."""
    from gv.extract import rebind
    VC = need(tr, "_TranspileSwapVisitor")
    for w in range(4):
        for copy in (False, True):
            made = []
            class NC:
                def __init__(self, width, *a):
                    if a: raise Unfit("arguments of a circuit")
                    self.width, self.instruction, self.active_qubits, self.log = width, Tok("new gates"), Tok("active"), []; made.append(self)
                def add(self, g): self.log.append(g)
            old = types.SimpleNamespace(width=w, instruction=[], active_qubits=Tok("old active"), name="old"); before = dict(vars(old))
            r = rebind(transpile_swaps, Circuit=NC)(old, copy=copy); tag = f"swaps, {w} qubits, copy={copy}"
            ob.structural(f"{tag}: one new circuit of the same width", len(made) == 1 and made[0].width == w and not made[0].log)
            if len(made) != 1: continue
            ob.structural(f"{tag}: {'the new circuit, the old one is as it was' if copy else 'the circuit itself, with the new gates and active qubits'}",
                (r.circuit is made[0] and vars(old) == before) if copy else (r.circuit is old and old.instruction is made[0].instruction and old.active_qubits is made[0].active_qubits and old.width == w))
            ob.structural(f"{tag}: every qubit is at its place", [(o.kind, o.index) for o in r.outputs] == [(OutputIndex(OutputKind.Qubit, i).kind, i) for i in range(w)] and isinstance(r.outputs, tuple))
        for m in ("transpile_measurements_to_z_axis", "transpile_j_to_rzh"):
            c = Circuit(w); r = getattr(c, m)()
            ob.structural(f"{m}, {w} qubits: a new circuit of the same width without gates", r is not c and r.width == w and r.instruction == [] and c.instruction == [])
    class BE:
        def __init__(self): self.log = []; self.state = Tok("state")
        def add_nodes(self, nodes, data=None): self.log.append((list(nodes), data))
        def __getattr__(self, a): raise Unfit(f"backend.{a}")
    for w in range(4):
        for data in (None, Tok("data"), 0):
            for sel in (None, Tok("selector")):
                be, asked = BE(), []
                def init(b, s, n): asked.append((b, s, n)); return be
                kind = Tok("backend"); r = rebind(Circuit.simulate, _initialize_backend=init)(types.SimpleNamespace(width=w, instruction=[]), kind, data, sel, Tok("rng"))
                tag = f"simulation, {w} qubits, input {'given' if data is not None else 'default'}, selector {'given' if sel is not None else 'default'}"
                ob.structural(f"{tag}: the backend that is asked for, with the qubits in order and this input", len(asked) == 1 and asked[0][0] is kind and asked[0][1] is sel and asked[0][2] == w and len(be.log) == 1 and be.log[0][0] == list(range(w)) and be.log[0][1] is data)
                ob.structural(f"{tag}: its state is returned, no outcomes", r.state is be.state and r.classical_measures == ())
    class Dense: pass
    class SVB:
        @staticmethod
        def with_capacity(n, branch_selector): return ("sv", n, branch_selector)
    def init(b, s, w): return rebind(need(tr, "_initialize_backend"), DenseStateBackend=Dense, StatevectorBackend=SVB, DensityMatrixBackend=lambda branch_selector: ("dm", branch_selector), RandomBranchSelector=lambda: "random")(b, s, w)
    sel, be = Tok("selector"), Dense()
    for s, want in ((None, "random"), (sel, sel)):
        ob.structural(f"state vector, selector {'given' if s is not None else 'default'}", init("statevector", s, 3) == ("sv", 3, want))
        ob.structural(f"density matrix, selector {'given' if s is not None else 'default'}", init("densitymatrix", s, 3) == ("dm", want))
        for b in ("other", 5):
            try: init(b, s, 3); ok = False
            except ValueError: ok = True
            ob.structural(f"backend {b!r}, selector {'given' if s is not None else 'default'}: refused", ok)
    ob.structural("a backend is used as it is", init(be, None, 3) is be)
    try: init(be, sel, 3); ok = False
    except ValueError: ok = True
    ob.structural("a backend together with a selector is refused", ok)

# -- bounded --------------------------------------------------------------------------------------------------------------
def circ(r, w, d, meas): return G.circuit(r, w, d, measure=meas, kinds=[*G.GATES1, *G.ROT, *G.GATES2, "SWAP", "SWAP", "RZZ", "CCX"])

def wide(rng, tier): return G.seeds(rng, lambda r: r.randrange(1, 5), lambda r: r.randrange(0, 10), lambda r: r.choice([0, .1, .25, .5]))

def outs(c): return itertools.product((0, 1), repeat=csim.n_meas(c))

@P.bounded("swap elimination", [T + "transpile_swaps", T + "TranspileSwapsResult"], wide, "random circuits on <= 4 qubits, <= 9 gates, swaps and measurements anywhere; all outcomes", quick=8, thorough=120)
def swap_elim(case):
    seed, w, d, meas = case; r = random.Random(seed); c = circ(r, w, d, meas); ref = Circuit(w, c.instruction); copy = r.random() < .6
    before = [repr(i) for i in c.instruction]; act = set(c.active_qubits); res = transpile_swaps(c, copy=copy); n = res.circuit
    if any(i.kind == IK.SWAP for i in n.instruction): return "a swap is left"
    if copy and (n is c or [repr(i) for i in c.instruction] != before or c.active_qubits != act): return "the original was changed"
    if copy and any(a is b for a in n.instruction for b in c.instruction): return "a gate is shared with the original"
    if not copy and n is not c: return "not in place"
    if len(res.outputs) != w: return "width"
    order = {}; k = 0
    for i in ref.instruction:
        if i.kind == IK.M: order[i.target] = k; k += 1
    for q, o in enumerate(res.outputs):
        if (o.kind == OutputKind.Bit) != (q in order): return f"kind of output {q}"
        if q in order and o.index != order[q]: return f"measurement index of qubit {q}"
    left = [q for q in range(w) if q not in order]; places = [res.outputs[q].index for q in left]
    if sorted(places) != sorted(n.active_qubits): return "outputs are not the active qubits"
    if list(res.extract_outputs(OutputKind.Qubit)) != places or list(res.extract_outputs(OutputKind.Bit)) != [order[q] for q in range(w) if q in order]: return "extract_outputs"
    idx = [sorted(places).index(p) for p in places]
    if list(res.extract_output_node_indices()) != idx: return "extract_output_node_indices"
    nodes = [f"n{i}" for i in range(len(left))]
    if list(res.swap_output_nodes(nodes)) != [nodes[i] for i in idx]: return "swap_output_nodes"
    if list(res.swap_classical_outputs(list(range(100, 100 + k)))) != [100 + order[q] for q in range(w) if q in order]: return "swap_classical_outputs"
    from gv.psim import Sim
    for o in itertools.islice(outs(ref), 16):
        a = csim.run(ref, o); b = csim.run(n, o)
        t = b.reshape((2,) * len(left) + (-1,)).transpose(*idx, len(left)).reshape(a.shape)
        if not M.phase_equal(a, t): return f"outcomes {o}: different map"
    for i in n.instruction:  # never acts on a measured qubit
        pass
    try: Circuit(w, n.instruction)
    except AssertionError: return "the rewritten circuit acts on a measured qubit"
    return None

@P.bounded("axis and J rewriting", [T + "Circuit.transpile_measurements_to_z_axis", T + "Circuit.transpile_j_to_rzh"], wide, "random circuits on <= 4 qubits, <= 9 gates; all outcomes", quick=6, thorough=100)
def axis_rewr(case):
    seed, w, d, meas = case; r = random.Random(seed); c = circ(r, w, d, meas); before = [repr(i) for i in c.instruction]; act = set(c.active_qubits)
    for f in (Circuit.transpile_measurements_to_z_axis, Circuit.transpile_j_to_rzh, lambda c: c.transpile_measurements_to_z_axis().transpile_j_to_rzh(), lambda c: c.visit(InstructionVisitor(), copy=True)):
        n = f(c)
        if [repr(i) for i in c.instruction] != before or c.active_qubits != act or n is c: return "the original was changed"
        if n.active_qubits != act or n.width != w: return "active qubits"
        for o in itertools.islice(outs(c), 16):
            if not M.phase_equal(csim.run(c, o), csim.run(n, o)): return f"outcomes {o}: different map"
        for q in set(range(w)) - act:
            try: n.h(q)
            except AssertionError: continue
            return f"the rewritten circuit accepts a gate on the measured qubit {q}"
    return None

@P.bounded("qubit relabelling", [T + "Circuit.visit", "graphix/instruction.py:visit"], wide, "random circuits on <= 4 qubits, random permutations, copy and in place", quick=4, thorough=60)
def relabel(case):
    seed, w, d, meas = case; r = random.Random(seed); c = circ(r, w, d, meas); p = r.sample(range(w), w); copy = r.random() < .5
    ref = Circuit(w, c.instruction)
    class V(InstructionVisitor):
        def visit_qubit(self, q): return p[q]
    n = c.visit(V(), copy=copy)
    if (n is c) == copy: return "copy"
    if copy and [repr(i) for i in c.instruction] != [repr(i) for i in ref.instruction]: return "the original was changed"
    if n.active_qubits != {p[q] for q in ref.active_qubits}: return f"active qubits {n.active_qubits} after relabelling {ref.active_qubits} by {p}, copy={copy}"
    left = sorted(ref.active_qubits); new = [p[q] for q in left]; idx = [sorted(new).index(x) for x in new]
    for o in itertools.islice(outs(ref), 8):
        a = csim.run(ref, o); b = csim.run(n, o)
        t = b.reshape((2,) * len(left) + (2,) * w); t = t.transpose(*idx, *[len(left) + x for x in p]).reshape(a.shape)
        if not M.phase_equal(a, t): return f"outcomes {o}: different map"
    return None

@P.bounded("circuit simulation", [T + "Circuit.simulate"], wide, "random circuits on <= 4 qubits, <= 9 gates, both dense backends, random inputs and outcomes", quick=8, thorough=100)
def simulated(case):
    seed, w, d, meas = case; r = random.Random(seed); c = circ(r, w, d, meas); rng = np.random.default_rng(seed)
    o = [r.randrange(2) for _ in range(csim.n_meas(c))]; v = M.rand_state(rng, w) if r.random() < .7 else None
    inp = v if v is not None else np.full(2 ** w, 2 ** (-w / 2)); want = csim.run(c, o) @ inp
    if np.linalg.norm(want) < 1e-4: return "skip"
    tgt = [i.target for i in c.instruction if i.kind == IK.M]; sel = FixedBranchSelector(dict(zip(tgt, o)))
    backend = r.choice(["statevector", "densitymatrix"])
    res = c.simulate(backend=backend, input_state=v, branch_selector=sel)
    if tuple(res.classical_measures) != tuple(o): return "classical outcomes"
    want = want / np.linalg.norm(want)
    if backend == "statevector": ok = M.phase_equal(res.state.psi.ravel(), want, 1e-6)
    else: ok = np.allclose(res.state.rho, np.outer(want, want.conj()), atol=1e-6)
    return None if ok else f"{backend}: wrong state"
