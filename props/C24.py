from __future__ import annotations
import itertools, math, random, types
import networkx as nx
import numpy as np
from gv import boot, csim, flowspec as S, gen as G, loops, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.exact import Ang, Var, equal, lp_array, proportional
from gv.extract import nested, rebind
from graphix import instruction as I
from graphix._linalg import MatGF2
from graphix.circ_ext import compilation as co, extraction as ex
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponential, PauliExponentialDAG, PauliString
from graphix.fundamentals import Axis, Plane, Sign
from graphix.instruction import InstructionKind as IK
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.transpiler import Circuit

X, C, F = "graphix/circ_ext/extraction.py:", "graphix/circ_ext/compilation.py:", "graphix/flow/core.py:"
P = Prop("C24", "proof",
    "Synthesis is under contract: the gates added for one Pauli exponential are compared exactly (all angles) with the exponential, by induction on its length; every tableau update of the Clifford "
    "synthesis is compared with the conjugation by the gate it records, for every row; strings and tableaux per qubit. The letters and the sign of the string of a corrected node "
    "are those of the product of graph-state stabilizers, for every role of a node, and the maps are assembled from these strings. That the sweep always ends in the identity tableau and that the strings of a focused flow "
    "make up the circuit of the pattern are bounded.",
    ["a tableau update acts on rows independently (elementwise numpy operations)", "conjugation by a CNOT ladder composes (unitaries)", "sweep termination in canonical form: bounded (every Clifford on <= 2 qubits in thorough)",
     "the strings of a focused flow and the exponentials reproduce the pattern: bounded"], ["networkx graphs", "numpy"])

PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
def mat(ps):
    m = M.kron(*[PM[ps.axes[i].name if i in ps.axes else "I"] for i in range(ps.dim)]) if ps.dim else np.eye(1)
    return m * (-1 if ps.sign == Sign.MINUS else 1)

class Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __lt__ = __int__ = __bool__ = __add__ = _no

# -- strings ---------------------------------------------------------------------------------------------------------------
@P.proof("Pauli strings and tableaux", [X + f"PauliString.{f}" for f in ("from_str", "__str__", "from_tableau", "to_tableau")] + [X + "CliffordMap.to_tableau"], "per-qubit complete enumeration; inductive step of the extracted loops")
def strings(ob):
    bits = {None: (0, 0), Axis.X: (1, 0), Axis.Y: (1, 1), Axis.Z: (0, 1)}
    run = loops.step(PauliString.from_tableau, 0)
    for ax, xz in bits.items():
        i, old = Tok("i"), Tok("j"); d = run((i, xz), axes={old: Axis.Y})
        ob.structural(f"from_tableau step {xz}", d["__exit__"] == "next" and d["axes"] == ({old: Axis.Y} if ax is None else {old: Axis.Y, i: ax}))
    class Rec:
        def __init__(self): self.w = []
        def __setitem__(self, k, v): self.w.append((k, v))
    class Ix(Tok):
        def __add__(self, o): return ("z", self, o)
        __radd__ = __add__
    run = loops.step(PauliString.to_tableau, 0)
    for ax in Axis:
        i, r = Ix("i"), Rec(); dim = Tok("dim")
        run((i, ax), tab=r, self=types.SimpleNamespace(dim=dim))
        x, z = bits[ax]
        ob.structural(f"to_tableau step {ax.name}", {k: v for k, v in r.w} == ({i: 1} if x else {}) | ({("z", i, dim): 1} if z else {}))

@P.proof("short Pauli strings and tableaux", [X + f"PauliString.{f}" for f in ("from_str", "__str__", "from_tableau", "to_tableau")] + [X + "CliffordMap.to_tableau"], "enumeration")
def short_strings(ob):
    bits = {None: (0, 0), Axis.X: (1, 0), Axis.Y: (1, 1), Axis.Z: (0, 1)}
    for n in range(4):
        for ops in itertools.product("IXYZ", repeat=n):
            for s in Sign:
                body = "".join(ops); ps = PauliString(n, {i: Axis[o] for i, o in enumerate(ops) if o != "I"}, s); t = f"{s}{body}"
                tab = ps.to_tableau()
                ob.check(f"{t}: tableau", tab.shape == (2 * n + 1,) and [int(b) for b in tab] == [bits[Axis[o] if o != "I" else None][0] for o in ops] + [bits[Axis[o] if o != "I" else None][1] for o in ops] + [int(s == Sign.MINUS)])
                ob.check(f"{t}: from its tableau", PauliString.from_tableau(tab) == ps)
                ob.check(f"{t}: str and from_str", str(ps) == t and PauliString.from_str(t) == ps and (s == Sign.MINUS or PauliString.from_str(body) == ps))
    for bad in ("x", "+-X", "XA", "A", "+X Z", " ", "X-", "XYz"):
        ob.check(f"from_str({bad!r}) is refused", raises(lambda: PauliString.from_str(bad), ValueError))
    for sh in ((0,), (2,), (4,), (3, 3), (1, 3)):
        ob.check(f"from_tableau of shape {sh} is refused", raises(lambda: PauliString.from_tableau(MatGF2(np.zeros(sh, dtype=np.uint8))), ValueError))
    for n in range(1, 4):
        rows = [PauliString.from_str("+-"[(3 * i) % 2] + "".join("IXYZ"[(i * (j + 1) + j) % 4] for j in range(n))) for i in range(2 * n)]
        t = CliffordMap(rows[:n], rows[n:], list(range(n)), list(range(n))).to_tableau()
        ob.check(f"Clifford map on {n}: rows are the images of X, then of Z", t.shape == (2 * n, 2 * n + 1) and all(PauliString.from_tableau(MatGF2(t[i])) == rows[i] for i in range(2 * n)))
    ob.check("isometries have no tableau", raises(lambda: CliffordMap([], [], [1], [1, 2]).to_tableau(), NotImplementedError))

def raises(f, e):
    try: f()
    except e: return True
    return False

# -- exponentials ------------------------------------------------------------------------------------------------------------
class Rec:
    """A circuit that records gates (through the real builders)."""
    def __init__(self, n): self.c = Circuit(n)

def expo(ps, ang):
    """exp(i pi ang P) exactly (the convention of the ladder pass; the class docstring has ang/2)."""
    h = ang * math.pi
    c, s = ((h * 1.0).cos(), (h * 1.0).sin()) if isinstance(ang, Ang) else (math.cos(h), math.sin(h))
    p = mat(ps); n = p.shape[0]
    return np.array([[c * float(i == j) + s * (1j * p[i, j]) for j in range(n)] for i in range(n)], dtype=object if isinstance(ang, Ang) else complex)

A = Var("a")
# -- strings of flows ------------------------------------------------------------------------------------------------------
@P.proof("products of graph-state stabilizers", [X + "extraction_ps_from_corrected_node"], "evaluation: every role of one and two nodes of arbitrary sets, every number of edges; lemma on products of stabilizers")
def stabilizer_unit(ob):
    """The product of the generators X_v Z_N(v) of a set c is (-1)^edges(c) X^c Z^odd(c) (multiplying by one more generator v adds the edges from v to c),
    and X Z = -i Y on each of the y nodes of both sets, y even: the sign is (-1)^(edges + y/2).  A Pauli measured node is replaced by its outcome."""
    XM, ZM, YM = (np.array(PM[k], dtype=complex) for k in "XZY")
    ob.check("lemma: X Z = -i Y and X, Z anticommute", np.array_equal(XM @ ZM, -1j * YM) and np.array_equal(XM @ ZM, -ZM @ XM))
    ob.check("lemma: (-i)^y = (-1)^(y/2) for even y", all((-1j) ** y == (-1) ** (y // 2) for y in range(0, 8, 2)))
    f = rebind(ex.extraction_ps_from_corrected_node)
    kinds = ["output", "bloch", *PauliMeasurement]
    def og_of(nodes, c, odd, edges):
        def onb(s):
            if set(s) != c: raise Unfit("neighbours of another set")
            return set(odd)
        def sub(s):
            if set(s) != c: raise Unfit("edges of another set")
            return types.SimpleNamespace(number_of_edges=lambda: edges)
        return types.SimpleNamespace(odd_neighbors=onb, graph=types.SimpleNamespace(subgraph=sub), output_nodes=[n for n, k in nodes.items() if k == "output"],
                                     measurements={n: (Measurement.XY(.3) if k == "bloch" else k) for n, k in nodes.items() if k != "output"})
    def judge(nodes, c, odd, edges, label, own):
        og = og_of(nodes, c, odd, edges); keep = set(c)
        flow = types.SimpleNamespace(og=og, correction_function={own: c}, node_measurement_label=lambda n: label if n == own else None)
        r = f(flow, own); out = og.output_nodes
        letters = {i: {(1, 0): Axis.X, (0, 1): Axis.Z, (1, 1): Axis.Y}[n in c, n in odd] for i, n in enumerate(out) if n in c or n in odd}
        y = len(c & odd)
        minus = edges + y // 2 + sum(isinstance(k, PauliMeasurement) and k.sign == Sign.MINUS and n in c | odd and n != own for n, k in nodes.items()) + (label == Plane.YZ)
        return r.dim == len(out) and dict(r.axes) == letters and r.sign == (Sign.MINUS if minus % 2 else Sign.PLUS) and c == keep
    labels = [*Plane, *Axis]
    for k1, k2 in itertools.product(kinds, repeat=2):
        ok = True
        for m1, m2 in itertools.product(range(4), repeat=2):
            for own in kinds[1:]:
                for mo in range(4):
                    nodes = {"b": k2, "own": own, "a": k1}; mem = dict(b=m2, a=m1, own=mo)
                    ok = ok and judge(nodes, {n for n in nodes if mem[n] & 1}, {n for n in nodes if mem[n] & 2}, 0, Plane.XY, "own")
        ob.structural(f"roles {k1} and {k2}: letters on the outputs, in their order, and sign", ok)
    for label in labels:
        for edges in range(5):
            for y in range(9):
                nodes = {"own": "bloch", **{f"n{i}": "bloch" if i % 3 else "output" for i in range(y)}}; s = {f"n{i}" for i in range(y)}
                ob.structural(f"label {label}, {edges} edges, {y} nodes in both sets: sign", judge(nodes, set(s), set(s), edges, label, "own"))

@P.proof("strings of a flow and Clifford maps", [F + "PauliFlow.extraction_pauli_strings", X + "clifford_z_map_from_focused_flow", X + "clifford_x_map_from_focused_flow", X + "extend_input"], "evaluation: opaque strings, every role of up to 3 inputs; fresh nodes on every graph of 3 nodes")
def flow_strings_unit(ob):
    from graphix.flow.core import PauliFlow
    g = getattr(PauliFlow.extraction_pauli_strings, "func", PauliFlow.extraction_pauli_strings)
    for focused in (False, True):
        for k in range(4):
            flow = types.SimpleNamespace(is_focused=lambda: focused, correction_function={f"n{i}": None for i in range(k)})
            try: got = rebind(g, extraction_ps_from_corrected_node=lambda fl, n: (fl is flow, n))(flow)
            except ValueError: got = None
            ob.structural(f"{k} corrected nodes, focused={focused}: {'one string each' if focused else 'refused'}", got == ({f"n{i}": (True, f"n{i}") for i in range(k)} if focused else None))
    for k in range(4):
        for roles in itertools.product((False, True), repeat=k):      # measured?
            ins = [f"i{j}" for j in range(k)]; outs = ["o", *[n for n, m in zip(ins, roles) if not m][::-1]]
            og = types.SimpleNamespace(input_nodes=ins, output_nodes=outs, measurements={n: "m" for n, m in zip(ins, roles) if m})
            flow = types.SimpleNamespace(og=og, extraction_pauli_strings={n: ("string", n) for n, m in zip(ins, roles) if m})
            r = rebind(ex.clifford_z_map_from_focused_flow)(flow); want = [("string", n) if m else PauliString(len(outs), {outs.index(n): Axis.Z}) for n, m in zip(ins, roles)]
            ob.structural(f"images of Z, inputs measured {roles}", list(r) == want)
            ext = types.SimpleNamespace(input_nodes=[f"a{n}" for n in ins], to_pauliflow=lambda: "extended flow")
            r = rebind(ex.clifford_x_map_from_focused_flow, extend_input=lambda o: (ext, {n: f"a{n}" for n in ins}) if o is og else None, extraction_ps_from_corrected_node=lambda fl, n: (fl, n))(flow)
            ob.structural(f"images of X, {k} inputs: the strings of the ancillas of the extended graph", list(r) == [("extended flow", f"a{n}") for n in ins])
    for n in range(1, 4):
        pairs = list(itertools.combinations(range(n), 2))
        for es in itertools.product((0, 1), repeat=len(pairs)):
            for ins in (p for j in range(n + 1) for p in itertools.permutations(range(n), j)):
                gr = nx.Graph(); gr.add_nodes_from(range(n)); gr.add_edges_from(e for e, b in zip(pairs, es) if b); out = [n - 1]; ms = {v: Measurement.XY(.1 * (v + 1)) for v in range(n - 1)}
                og = OpenGraph(gr, list(ins), out, ms); e2, anc = rebind(ex.extend_input)(og); fresh = [anc[v] for v in ins]
                ok = set(anc) == set(ins) and len(set(fresh)) == len(ins) and not set(fresh) & set(range(n)) and list(e2.input_nodes) == fresh and list(e2.output_nodes) == out \
                    and {frozenset(e) for e in e2.graph.edges} == {frozenset(e) for e in gr.edges} | {frozenset(x) for x in anc.items()} and set(e2.graph.nodes) == set(range(n)) | set(fresh) \
                    and dict(e2.measurements) == {**ms, **{a: Measurement.X for a in fresh}} and list(og.input_nodes) == list(ins) and gr.number_of_nodes() == n and dict(og.measurements) == ms
                ob.structural(f"{n} nodes, edges {es}, inputs {ins}: each gets its own ancilla, measured along X, in the same order", ok)

@P.proof("Pauli exponentials", [C + "pexp_ladder_pass (add_pexp, add_basis_change, add_hy)", X + "PauliExponential.from_measured_node"], "exact algebra in e^{i pi a}; induction on the length")
def exps(ob):
    add = nested(co.pexp_ladder_pass, "add_pexp")
    for n in range(1, 4):
        for ops in itertools.product("IXYZ", repeat=n):
            for s in Sign:
                ps = PauliString(n, {i: Axis[o] for i, o in enumerate(ops) if o != "I"}, s)
                if not ps.axes and s == Sign.MINUS: continue
                def real(a, ps=ps, n=n):
                    c = Circuit(n); add(PauliExponential(a, ps), c); return M.phase_equal(csim.unitary(c.instruction, n), expo(ps, a))
                c = Circuit(n); add(PauliExponential(A, ps), c)
                if any(i.kind == IK.M for i in c.instruction): raise Unfit("measurement")
                ob.exact(f"exp of {s}{''.join(ops)}, for all angles", proportional(csim.unitary(c.instruction, n, True), expo(ps, A)) if ps.axes else not c.instruction or proportional(csim.unitary(c.instruction, n, True), lp_array(np.eye(2 ** n))), ["a"], real)
    for ang in (0, 0.0):
        c = Circuit(2); add(PauliExponential(ang, PauliString.from_str("XY")), c); ob.check("no rotation for a zero angle", not c.instruction or M.phase_equal(csim.unitary(c.instruction, 2), np.eye(4)))
    # any length: the first loop maps Z of the last qubit to the string, one qubit after the other; the second one undoes it
    basis = nested(co.pexp_ladder_pass, "add_basis_change")
    up, down = loops.step(add, 0), loops.step(add, 1)
    for (a1, a2), s in itertools.product(itertools.product(Axis, repeat=2), Sign):
        pe = PauliExponential(A, PauliString(5, {0: a1, 1: a2, 4: Axis.X}, s))
        c0, c1, c2, c3 = Circuit(2), Circuit(2), Circuit(2), Circuit(2)
        basis(pe, 0, c0); b = csim.unitary(c0.instruction, 2); Z0, Z1 = np.kron(PM["Z"], PM["I"]), np.kron(PM["I"], PM["Z"])
        eq = lambda a, b: np.allclose(a, b)
        ob.check(f"basis change {a1.name}: the axis becomes Z and back", eq(b.conj().T @ Z0 @ b, np.kron(PM[a1.name], PM["I"])) and M.phase_equal(b @ b, np.eye(4)))
        up((0, 1), pexp=pe, circuit=c1); u = csim.unitary(c1.instruction, 2)
        ob.check(f"ladder up {a1.name} {a2.name}: Z of the next qubit becomes Z of this one times the axis of the next", eq(u.conj().T @ Z1 @ u, np.kron(PM["Z"], PM[a2.name])))
        down((1, 0), pexp=pe, circuit=c2); v = csim.unitary(c2.instruction, 2)
        ob.check(f"ladder down {a1.name} {a2.name}: undoes the ladder up", M.phase_equal(v @ u, np.eye(4)))
    for ax, s in itertools.product(Axis, Sign):
        ps = PauliString(1, {0: ax}, s); node = Tok("n")
        for pl in Plane:
            flow = types.SimpleNamespace(extraction_pauli_strings={node: ps}, og=types.SimpleNamespace(measurements={node: BlochMeasurement(A, pl)}))
            r = PauliExponential.from_measured_node(flow, node)
            ob.structural(f"exponential of a node measured in {pl.name}: half its angle and its string", r.pauli_string is ps and isinstance(r.angle, Ang) and r.angle.same(A * .5))
        flow.og.measurements[node] = PauliMeasurement(ax, s); r = PauliExponential.from_measured_node(flow, node)
        ob.structural(f"exponential of a node measured in {s}{ax.name}: no rotation", r.pauli_string is ps and not isinstance(r.angle, Ang) and r.angle == 0)

@P.proof("order of the exponentials and assembly", [C + "pexp_ladder_pass (loop)", C + "er_to_circuit", X + "ExtractionResult.to_circuit", X + "PauliExponentialDAG.from_focused_flow", X + "CliffordMap.from_focused_flow", F + "PauliFlow.extract_circuit"], "recording stand-ins")
def order(ob):
    for k in range(1, 4):
        ns = [[Tok(f"n{i}{j}") for j in range(2)] for i in range(k)]
        layers = ((Tok("out"),), *ns)
        seen = []
        # every exponential is a rotation about X of qubit (its layer): the order of the gates is the order of the nodes
        pe = {n: PauliExponential(Ang({n.n: 1.0}), PauliString(1, {0: Axis.X})) for l in ns for n in l}
        c = Circuit(1); co.pexp_ladder_pass(PauliExponentialDAG(pe, layers, [0]), c)
        ok = all(isinstance(getattr(i, "angle", None), Ang) and len(i.angle.terms) == 1 for i in c.instruction)
        if not ok: raise Unfit("other gates")
        seq = [next(iter(i.angle.terms)) for i in c.instruction]
        ob.structural(f"{k} layers: each exponential once, later measured nodes... first layer last", sorted(seq) == sorted(pe_n.n for pe_n in pe) and [s[1] for s in seq] == [str(i) for i in reversed(range(k)) for _ in range(2)])
    for same in (True, False):
        outs = [Tok("o0"), Tok("o1")]; other = outs if same else outs[::-1]
        er = ExtractionResult(PauliExponentialDAG({}, (), outs), CliffordMap((), (), (), tuple(other))); log = []
        def pc(d, c): log.append(("p", d, c))
        def cc(m, c): log.append(("c", m, c))
        if not same:
            ob.check("different outputs are refused", raises(lambda: co.er_to_circuit(er, pc, cc), ValueError) and raises(lambda: er.to_circuit(pc, cc), ValueError) and not log); continue
        for f in (co.er_to_circuit, lambda *a: er.to_circuit(*a[1:])):
            log.clear(); r = f(er, pc, cc)
            ob.structural("Clifford map first, then the exponentials, on one circuit with a qubit per output", [l[0] for l in log] == ["c", "p"] and log[0][1] is er.clifford_map and log[1][1] is er.pexp_dag and log[0][2] is r and log[1][2] is r and r.width == 2 and not r.instruction)
        log.clear(); r = rebind(co.er_to_circuit, pexp_ladder_pass=pc, cm_berg_pass=cc)(er)
        ob.structural("default passes", [l[0] for l in log] == ["c", "p"])
    n = Tok("n"); f = types.SimpleNamespace(correction_function={n: 1}, extraction_pauli_strings={n: PauliString(1, {})}, partial_order_layers=Tok("layers"), og=types.SimpleNamespace(output_nodes=Tok("outs"), input_nodes=Tok("ins"), measurements={n: Measurement.X}, output_cliffords={}))
    d = PauliExponentialDAG.from_focused_flow(f)
    ob.structural("DAG of a flow", list(d.pauli_exponentials) == [n] and d.partial_order_layers is f.partial_order_layers and d.output_nodes is f.og.output_nodes)
    g = rebind(CliffordMap.from_focused_flow, clifford_z_map_from_focused_flow=lambda fl: ("z", fl), clifford_x_map_from_focused_flow=lambda fl: ("x", fl))(f)
    ob.structural("Clifford map of a flow", g.x_map == ("x", f) and g.z_map == ("z", f) and g.input_nodes is f.og.input_nodes and g.output_nodes is f.og.output_nodes)
    from graphix.flow.core import PauliFlow
    f.og.output_cliffords = {1: 2}
    ob.check("graphs with output Cliffords are refused", raises(lambda: PauliFlow.extract_circuit(f), NotImplementedError))

# -- tableau updates ---------------------------------------------------------------------------------------------------------
def all_rows(n):
    out = []
    for ops in itertools.product("IXYZ", repeat=n):
        for s in Sign: out.append(PauliString(n, {i: Axis[o] for i, o in enumerate(ops) if o != "I"}, s))
    return out

@P.proof("tableau updates", [C + f"cm_berg_pass.{f}" for f in ("add_h", "add_s", "add_cnot", "add_swap", "correct_signs", "do_step_1 (loop)")], "every row, exact conjugation")
def updates(ob):
    for n, idx in ((1, int), (2, np.int64), (3, int)):
        rows = all_rows(n); T0 = np.vstack([r.to_tableau() for r in rows]); mats = [mat(r) for r in rows]
        for nm, k in (("add_h", 1), ("add_s", 1), ("add_cnot", 2), ("add_swap", 2)):
            f = nested(co.cm_berg_pass, nm, n=n)
            for qs in itertools.permutations(range(n), k):
                tab = MatGF2(T0.copy()); ins = [Tok("before")]; f(tab, ins, *map(idx, qs))
                if ins[0].__class__ is not Tok: raise Unfit("instructions")
                v = csim.unitary(ins[1:][::-1], n)  # what is appended to the circuit
                ok = all(np.allclose(v.conj().T @ m @ v, mat(PauliString.from_tableau(MatGF2(t)))) for m, t in zip(mats, tab))
                ob.structural(f"{nm}{qs} of {n} qubits: each row P becomes V' P V where V is the appended gate", ok)
        cs = nested(co.cm_berg_pass, "correct_signs", n=n)
        for signs in itertools.product((0, 1), repeat=2 * n):
            tab = MatGF2(np.hstack([np.eye(2 * n, dtype=np.uint8), np.array(signs, dtype=np.uint8)[:, None]])); ins = []; cs(tab, ins)
            v = csim.unitary(ins[::-1], n)
            gens = [mat(PauliString.from_tableau(MatGF2(r))) for r in np.hstack([np.eye(2 * n, dtype=np.uint8), np.zeros((2 * n, 1), dtype=np.uint8)])]
            ob.structural(f"signs {signs}: the appended Paulis restore the generators", all(np.allclose(v.conj().T @ g @ v, g * (-1) ** s) for g, s in zip(gens, signs)))
        # one iteration of step 1 clears the Z component of a column of the row, and no other one
        st = loops.step(nested(co.cm_berg_pass, "do_step_1", n=n), 0, n=n)
        for j in range(n):
            for ri, r in enumerate(rows):
                if r.axes.get(j) not in (Axis.Y, Axis.Z): continue
                tab = MatGF2(T0.copy()); ins = []
                st(idx(j), tab=tab, instructions=ins, row_idx=ri)
                got = PauliString.from_tableau(MatGF2(tab[ri]))
                ob.structural(f"step 1 column {j} row {r}: becomes X there, unchanged elsewhere", got.axes == {**r.axes, j: Axis.X})
    ob.check("isometries are refused", raises(lambda: co.cm_berg_pass(CliffordMap((), (), (1,), (1, 2)), Circuit(2)), NotImplementedError))

@P.proof("the sweep", [C + f"cm_berg_pass.{f}" for f in ("do_step_2", "process_qubit")] + ["graphix/opengraph.py:OpenGraph.to_circuit"], "evaluation: every X part up to 9 qubits, every weight up to 40; order of the steps over their contracts; every pair of anticommuting rows up to 3 qubits")
def sweep(ob):
    """Contract of step 2: exactly the first 1 of the X part of the row remains, it is the pivot, and it is the target of no CNOT.  process_qubit: after steps 1, 2 and the swap, row q is
    X_q; row q+n anticommutes with it, so it has Z_q, and nothing on the qubits before q (it commutes with their canonical rows).  Unless it is Z_q already: H on q (row q: Z_q), steps 1 and 2
    bring row q+n to X on the first qubit of its support, which is q, without a gate that changes Z_q (S on q, H elsewhere, CNOTs from q or away from q), and H on q restores both."""
    def with_(name, n, **over):
        f = nested(co.cm_berg_pass, name, n=n)
        f.__globals__.update(over); return f
    def step2(n, ones):
        log = []
        def cnot(tab, ins, qc, qt):
            if not (tab[1, qc] and tab[1, qt]) or qt == min(ones): raise Unfit("another CNOT")
            tab[1, qt] ^= 1; log.append((qc, qt))
        tab = np.zeros((3, 2 * n + 1), dtype=np.uint8); tab[1, list(ones)] = 1; tab[0], tab[2] = 1, 1
        p = with_("do_step_2", n, add_cnot=cnot)(tab, [], 1)
        return p == min(ones) and np.flatnonzero(tab[1]).tolist() == [p] and len(log) == len(ones) - 1 and tab[0].all() and tab[2].all()
    for n in range(1, 10):
        for w in range(1, n + 1):
            for ones in itertools.combinations(range(n), w):
                try: ok = step2(n, ones)
                except Exception: ok = False      # noqa: BLE001
                ob.structural(f"step 2, X part on {ones} of {n}: only the first 1 is left", ok)
    for w in range(10, 41):
        try: ok = step2(w + 3, tuple(range(2, w + 2)))
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"step 2, {w} ones: only the first 1 is left", ok)
    # order of the steps
    n = 3
    for q, piv, canon in itertools.product(range(n), range(n), (True, False)):
        if piv < q: continue
        log = []; tab = np.zeros((2 * n, 2 * n + 1), dtype=np.uint8); tab[q + n, q + n] = 1; tab[q + n, -1] = 1
        if not canon: tab[q + n, (q + 1) % n] = 1
        rec = lambda nm: (lambda *a, **k: (log.append((nm, *[int(x) for x in (*a[2:], *k.values())])), piv if (nm == "2" and log[-1][1] == q) else q)[1])
        try: with_("process_qubit", n, do_step_1=rec("1"), do_step_2=rec("2"), add_swap=rec("swap"), add_h=rec("h"))(tab, [], q); err = None
        except Exception as e: err = e      # noqa: BLE001
        want = [("1", q), ("2", q), *([("swap", q, piv)] if piv != q else []), *([] if canon else [("h", q), ("1", q + n), ("2", q + n), ("h", q)])]
        ob.structural(f"qubit {q}, pivot {piv}, row {q + n} {'canonical' if canon else 'not canonical'}: the steps in order", err is None and log in (want, [("swap", piv, q) if x == ("swap", q, piv) else x for x in want]))
    # the steps together
    for n in (1, 2, 3):
        for q in range(n):
            proc = nested(co.cm_berg_pass, "process_qubit", n=n); m = n - q; bad = None; count = 0
            for bits in itertools.product((0, 1), repeat=4 * m):
                xa, za, xb, zb = bits[:m], bits[m:2 * m], bits[2 * m:3 * m], bits[3 * m:]
                if not sum(a * d + b * c for a, b, c, d in zip(xa, za, xb, zb)) % 2: continue
                tab = np.zeros((2 * n, 2 * n + 1), dtype=np.uint8)
                for i in range(q): tab[i, i] = tab[i + n, i + n] = 1
                tab[q, q:n], tab[q, n + q:2 * n], tab[q + n, q:n], tab[q + n, n + q:2 * n] = xa, za, xb, zb
                want = np.eye(2 * n, dtype=np.uint8); count += 1
                try:
                    proc(t := MatGF2(tab.copy()), [], q)
                    if any((t[i, :-1] != want[i]).any() for r in range(q + 1) for i in (r, r + n)): bad = bits
                except Exception: bad = bits      # noqa: BLE001
                if bad is not None: break
            ob.structural(f"{n} qubits, qubit {q}: after the sweep of a qubit its rows and those before are canonical, every pair of anticommuting rows", bad is None and count > 0)
    # from an open graph
    from gv.chains import Ch, Me
    from graphix.opengraph import OpenGraph
    class Flow(Me):
        def to_pauliflow(self, *, stacklevel=1): return Ch("flow")
    a, b = Ch("a"), Ch("b")
    for kw in ({}, dict(pexp_cp=a), dict(cm_cp=b), dict(pexp_cp=a, cm_cp=b)):
        try: r = rebind(OpenGraph.to_circuit)(Flow(), **kw); ok = r in (Ch("flow").extract_circuit().to_circuit(pexp_cp=kw.get("pexp_cp"), cm_cp=kw.get("cm_cp")), Ch("flow").extract_circuit().to_circuit(kw.get("pexp_cp"), kw.get("cm_cp")))
        except Exception: ok = False      # noqa: BLE001
        if not ok:      # the real code on a graph of two nodes
            import networkx as nx
            used = []; cps = {k: (lambda x, c, k=k: used.append(k)) for k in kw}
            try: OpenGraph(nx.Graph([(0, 1)]), [0], [1], {0: Measurement.XY(.3)}).to_circuit(**cps); good = sorted(used) == sorted(kw)
            except Exception: good = False      # noqa: BLE001
            if not good: ob.check("circuit of an open graph: the passes given are used", False, dict(passes=sorted(kw), used=used)); continue
        ob.structural(f"circuit of an open graph, passes {sorted(kw)}: that of the extraction of its Pauli flow", ok)

@P.proof("instructions become the circuit", [C + "cm_berg_pass (final loop)"], "recording stand-in")
def final(ob):
    # a map that needs no sweep: only the sign corrections are appended, for every combination of signs
    for n in (1, 2):
        for signs in itertools.product((0, 1), repeat=2 * n):
            xs = [PauliString(n, {q: Axis.X}, Sign.minus_if(signs[q])) for q in range(n)]; zs = [PauliString(n, {q: Axis.Z}, Sign.minus_if(signs[n + q])) for q in range(n)]
            ob.structural(f"signs {signs}: the circuit conjugates the generators into the map", realises(CliffordMap(xs, zs, range(n), range(n))) is None)

# -- bounded --------------------------------------------------------------------------------------------------------------------
def realises(cm):
    n = len(cm.output_nodes); c = Circuit(n); co.cm_berg_pass(cm, c); u = csim.unitary(c.instruction, n)
    for q in range(n):
        for a, ps in (("X", cm.x_map[q]), ("Z", cm.z_map[q])):
            g = M.kron(*[PM[a if i == q else "I"] for i in range(n)])
            if not np.allclose(u @ g @ u.conj().T, mat(ps)): return f"the circuit {c.instruction} does not map {a}{q} to {ps}; map x {[str(p) for p in cm.x_map]} z {[str(p) for p in cm.z_map]}"
    return None

def words(n):
    """Every Clifford on n qubits up to phase, as (x images, z images): breadth first on the tableaux (independent updates)."""
    def conj(row, g):
        x, z, s = list(row[0]), list(row[1]), row[2]
        if g[0] == "H":
            q = g[1]; s ^= x[q] & z[q]; x[q], z[q] = z[q], x[q]
        elif g[0] == "S":
            q = g[1]; s ^= x[q] & z[q]; z[q] ^= x[q]
        else:
            c, t = g[1:]; s ^= x[c] & z[t] & (x[t] ^ z[c] ^ 1); x[t] ^= x[c]; z[c] ^= z[t]
        return (tuple(x), tuple(z), s)
    gens = [(k, q) for k in "HS" for q in range(n)] + [("C", a, b) for a, b in itertools.permutations(range(n), 2)]
    e = lambda q: tuple(int(i == q) for i in range(n)); o = (0,) * n
    start = tuple([(e(q), o, 0) for q in range(n)] + [(o, e(q), 0) for q in range(n)])
    seen = {start}; todo = [start]
    while todo:
        nxt = []
        for t in todo:
            for g in gens:
                u = tuple(conj(r, g) for r in t)
                if u not in seen: seen.add(u); nxt.append(u)
        todo = nxt
    return sorted(seen)

def cliff_cases(rng, tier):
    for t in words(1): yield [1, t, 0]
    ws = words(2)
    for t in (ws if tier == "thorough" else rng.sample(ws, 600)): yield [2, t, 0]
    while True: yield [rng.choice([2, 3, 3, 4, 5]), None, rng.randrange(2 ** 40)]

@P.bounded("Clifford synthesis", [C + "cm_berg_pass", X + "CliffordMap.to_tableau"], cliff_cases, "all 24 one-qubit Cliffords, 600 (thorough: all 11520) two-qubit ones, random ones on <= 5 qubits", quick=10, thorough=150)
def synth(case):
    n, t, seed = case
    def ps(x, z, s): return PauliString(n, {i: (Axis.Y if a and b else Axis.X if a else Axis.Z) for i, (a, b) in enumerate(zip(x, z)) if a or b}, Sign.minus_if(bool(s)))
    if t is not None: rows = [ps(*r) for r in t]
    else:
        r = random.Random(seed); c = G.circuit(r, n, r.randrange(1, 6 * n), kinds=["H", "S", "X", "Y", "Z", "CNOT", "CZ", "SWAP"]); u = csim.unitary(c.instruction, n); rows = []
        for a in "XZ":
            for q in range(n):
                m = u @ M.kron(*[PM[a if i == q else "I"] for i in range(n)]) @ u.conj().T
                rows.append(pauli_of(m, n))
    nodes = random.Random(seed).sample(range(20), n)
    return realises(CliffordMap(rows[:n], rows[n:], nodes, list(reversed(nodes))))

def pauli_of(m, n):
    k = int(np.argmax(np.abs(m[:, 0]))); xs = [(k >> (n - 1 - i)) & 1 for i in range(n)]
    zs = [int((m[k ^ (1 << (n - 1 - i)), 1 << (n - 1 - i)] / m[k, 0]).real < 0) for i in range(n)]
    ps = PauliString(n, {i: (Axis.Y if a and b else Axis.X if a else Axis.Z) for i, (a, b) in enumerate(zip(xs, zs)) if a or b})
    return ps if np.allclose(mat(ps), m) else PauliString(n, ps.axes, Sign.MINUS)

def meas_for(r, kind):
    if kind == "causal": return lambda r: BlochMeasurement(G.angle(r), Plane.XY)
    if kind == "gflow": return lambda r: BlochMeasurement(G.angle(r, .2), r.choices(list(Plane), (3, 1, 1))[0])
    q = r.choice([.2, .5, .8])
    return lambda r: G.measurement(r, q, .0, (Plane.XY, Plane.XY, Plane.XZ, Plane.YZ))

def graph(seed, n, kind, square):
    r = random.Random(seed)
    if kind == "causal" and r.random() < .5: og = G.flow_graph(r, r.randrange(1, 4), 2, meas=meas_for(r, kind))
    else:
        no = min(n, r.randrange(1, n // 2 + 2)); og = G.opengraph(r, n, meas_for(r, kind), no if square else r.randrange(0, no + 1), no)
    if square and len(og.input_nodes) != len(og.output_nodes): return r, og, None
    return r, og, og.to_pauliflow_or_none()

def desc(og): return f"inputs {og.input_nodes} outputs {og.output_nodes} edges {list(og.graph.edges)} labels {dict(og.measurements)}"

def ecases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([1, 2, 3, 4, 4, 5, 5, 6, 7]), lambda r: r.choice(["causal", "gflow", "pauli", "pauli"]))

EX = [X + "extraction_ps_from_corrected_node", X + "extend_input", X + "clifford_x_map_from_focused_flow", X + "clifford_z_map_from_focused_flow", F + "PauliFlow.extract_circuit", F + "PauliFlow.extraction_pauli_strings", "graphix/opengraph.py:OpenGraph.to_circuit"]

@P.bounded("extracted circuits", EX, ecases, "open graphs on <= 7 nodes with as many inputs as outputs and Pauli flow (causal: more nodes); whole unitary up to phase", quick=12, thorough=200)
def circ(case):
    seed, n, kind = case
    for k in range(40):
        r, og, f = graph(seed + k, n, kind, True)
        if f is not None: break
    else: return "skip"
    want = psim.opengraph_map(og)
    for c in (f.extract_circuit().to_circuit(), og.to_circuit()):
        assert c.width == len(og.output_nodes)
        got = csim.unitary(c.instruction, c.width)
        assert M.prop_equal(got, want), f"the extracted circuit {c.instruction} is not the open graph: {desc(og)}"

@P.bounded("extracted parametric circuits", EX, ecases, "open graphs as above with one symbolic angle per measured plane node; exact for all angles", quick=8, thorough=120)
def circ_sym(case):
    seed, n, kind = case; n = min(n, 5)
    for k in range(40):
        r, og, f = graph(seed + k, n, kind, True)
        if f is not None and sum(isinstance(m, BlochMeasurement) for m in og.measurements.values()) <= 5: break
    else: return "skip"
    ms = {v: BlochMeasurement(Ang({f"v{v}": 1.0}) + r.choice([0, .5, 1]), m.plane) if isinstance(m, BlochMeasurement) else m for v, m in og.measurements.items()}
    og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, ms)
    c = og.to_pauliflow().extract_circuit().to_circuit()
    assert proportional(csim.unitary(c.instruction, c.width, True), psim.opengraph_map(og, None, True)), f"for some angles, the extracted circuit {c.instruction} is not the open graph: {desc(og)}"

@P.bounded("extracted isometries", EX, ecases, "open graphs on <= 7 nodes with Pauli flow: exponentials and Clifford map, two assignments of angles", quick=10, thorough=150)
def iso(case):
    seed, n, kind = case
    for k in range(20):
        r, og, f = graph(seed + k, n, kind, False)
        if f is not None: break
    else: return "skip"
    # M = (product of exponentials, latest last) C with P_i C = C X_i, Q_i C = C Z_i and C independent of the angles
    cs = []
    for _ in range(2):
        ms = {v: BlochMeasurement(r.uniform(-1, 1), m.plane) if isinstance(m, BlochMeasurement) else m for v, m in og.measurements.items()}
        g = OpenGraph(og.graph, og.input_nodes, og.output_nodes, ms); fl = g.to_pauliflow(); er = fl.extract_circuit(); m = psim.opengraph_map(g)
        d = er.pexp_dag; assert set(d.pauli_exponentials) == set(ms) and list(d.output_nodes) == list(g.output_nodes) == list(er.clifford_map.output_nodes)
        for layer in d.partial_order_layers[1:]:  # first layer acts last
            for v in layer:
                pe = d.pauli_exponentials[v]; e = expo(pe.pauli_string, float(pe.angle)); m = e.conj().T @ m
        cm = er.clifford_map; ni = len(g.input_nodes); assert list(cm.input_nodes) == list(g.input_nodes) and len(cm.x_map) == len(cm.z_map) == ni
        for i in range(ni):
            for a, ps in (("X", cm.x_map[i]), ("Z", cm.z_map[i])):
                q = M.kron(*[PM[a if j == i else "I"] for j in range(ni)])
                assert np.allclose(mat(ps) @ m, m @ q, atol=1e-8 * max(1, np.abs(m).max())), f"the image of {a}{i} is not {ps}: {desc(g)}"
        cs.append(m)
    assert M.prop_equal(*cs), f"what remains after the exponentials depends on the angles: {desc(og)}"
    if len(og.input_nodes) != len(og.output_nodes): assert raises(lambda: er.to_circuit(), NotImplementedError), "an isometry is turned into a circuit"

@P.bounded("unfocused flows", [F + "PauliFlow.extraction_pauli_strings", F + "PauliFlow.is_focused"], ecases, "found flows with one correction set changed: refused exactly when not focused", quick=3, thorough=30)
def unfocused(case):
    seed, n, kind = case
    r, og, f = graph(seed, n, kind, False)
    if f is None or not f.correction_function: return "skip"
    cf = {a: set(s) for a, s in f.correction_function.items()}; a = r.choice(sorted(cf)); b = r.choice(sorted(cf))
    if a != b: cf[a] ^= cf[b]
    g = type(f)(og, cf, f.partial_order_layers)
    try: g.extract_circuit(); ok = True
    except ValueError: ok = False
    assert ok == S.focused(og, cf), f"focused: {S.focused(og, cf)}, extracted: {ok}; corrections {cf} {desc(og)}"
