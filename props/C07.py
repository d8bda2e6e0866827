from __future__ import annotations
import itertools, random, types, warnings
import numpy as np
from gv import boot, mats as M, psim, gen as G, exact  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.symset import DSet, form, parity, compatible, SymSet
from gv import loops, pairs as PR
from gv.extract import rebind
from graphix import remove_pauli_measurements as R
from graphix.clifford import Clifford, Domains
from graphix.command import C, CommandKind, E, M as Meas, N, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.optimization import StandardizedPattern
from graphix.pattern import Pattern, shift_outcomes
from graphix.states import BasicStates

F = "graphix/remove_pauli_measurements.py:"
P = Prop("C07", "proof",
    "Pushing: loop contract of PauliPushingCut (real loop body, arbitrary parity sets and arbitrary earlier shifts, every Pauli and "
    "Bloch description) and of the domain expansion.  Removal: the local-gate update is proved for all gate pairs, parities and "
    "descriptions; local complementation, pivoting and the removal of a node are proved on every graph to toggle exactly the edges and apply "
    "exactly the gates of their contract, and these contracts are proved to keep the map on every graph: a graph state is a quadratic form "
    "modulo 4, whose terms involve one or two neighbours, so that graphs on the operated nodes and two others decide every graph.  The driver "
    "calls every step only where its contract allows it (every role of a node and of its neighbours), until none applies.  The whole removal is "
    "checked in addition on random patterns (bounded), every branch of the remaining measurements.",
    ["removed measurements are post-selected on outcome 0; isolated non-Pauli nodes are removed with a warning (documented)",
     "Clifford algebra through its contract (C01), Clifford action on measurements through C03"],
    ["semantics of patterns in gv/psim.py", "networkx graph operations through their documented meaning (gv/pairs.py)",
     "a form of degree two over the neighbours is zero when it is zero on every choice of two of them"])

CL = {c: psim.clifford_matrix(c) for c in Clifford}

class Keys:
    def __rand__(self, o): return o & self
    def __and__(self, o): return o & self
class Tok:
    def __init__(self, n): self.n = n
class Shifted(dict):
    """Arbitrary earlier shifts."""
    def keys(self): return Keys()
    def __getitem__(self, k):
        if isinstance(k, Tok): return DSet({"fold " + k.n})
        return super().__getitem__(k)
class Dom(DSet):
    def __and__(self, o):
        if not isinstance(o, Keys): raise Unfit("intersection")
        if len(self.f) != 1: raise Unfit("domain expanded twice")
        return [Tok(next(iter(self.f)))]
    __rand__ = __and__
    __hash__ = DSet.__hash__
def setc(x=()):
    if isinstance(x, SymSet): return DSet(x.f)
    return set(x)

@P.proof("domain expansion", [F + "_expand_domain"], backend="arbitrary sets as GF(2) forms")
def _(ob):
    f = rebind(need(R, "_expand_domain"), set=setc)
    d = Dom({"D"})
    r = f(Shifted(), d)
    ob.check("every earlier shift of a member of the domain is merged in, the domain itself is not modified",
             form(r) == frozenset({"D", "fold D"}) and form(d) == frozenset({"D"}) and r is not d)

@P.proof("pushing, one measurement", [F + "PauliPushingCut.from_standardizedpattern"], backend="loop contract, arbitrary sets as GF(2) forms")
def _(ob):
    fn = need(R, "PauliPushingCut").from_standardizedpattern
    ls = loops.loops_of(fn)
    run = loops.step(fn, len(ls) - 1, set=setc, _expand_domain=rebind(need(R, "_expand_domain"), set=setc))
    ms = [*PauliMeasurement, *(BlochMeasurement(a, p) for p in Plane for a in (0.0, 0.3, 0.5, 1.7))]
    for m in ms:
        for leave in (False, True):
            cmd = Meas(4, m, Dom({"s"}), Dom({"t"}))
            sd = Shifted(); a, b = Meas(8, Measurement.X), Meas(9, Measurement.XY(0.3))
            d = run(cmd, shifted_domains=sd, pauli_measurements=[a], non_pauli_measurements=[b], leave_nodes={4, 6} if leave else None)
            pm, nm = d["pauli_measurements"], d["non_pauli_measurements"]
            moved = isinstance(m, PauliMeasurement) and not leave
            ok = d["__exit__"] == "next" and pm[0] is a and nm[0] is b and (len(pm), len(nm)) == ((2, 1) if moved else (1, 2))
            ok = ok and form(cmd.s_domain) == frozenset("s") and form(cmd.t_domain) == frozenset("t")
            new = (pm if moved else nm)[-1]
            ok = ok and new.node == 4
            if moved: ok = ok and form(new.s_domain) == form(new.t_domain) == frozenset()
            sig = dict.get(sd, 4, set())
            ok = ok and set(dict.keys(sd)) <= {4}
            for fs in (form(new.s_domain), form(new.t_domain), form(sig)):
                ok = ok and all((x in fs) == ("fold " + x in fs) for x in "st")
            for ps, pt, o in itertools.product((0, 1), repeat=3):
                v = {"s": ps, "t": pt, "fold s": 0, "fold t": 0}
                def bas(meas, s, t, o):
                    x = psim.bra(meas, o)
                    if t: x = x * np.array([1, -1])
                    return x[::-1] if s else x
                ok = ok and M.prop_equal(bas(m, ps, pt, o), bas(new.measurement, parity(new.s_domain, v), parity(new.t_domain, v), o ^ parity(sig, v)))
            ob.check(f"{m}{' kept in place' if leave else ''}: outcome relabelled by the shifted signal, domains in terms of new outcomes", ok)

@P.proof("local gate on a node", [F + "_RemovePauliMeasurements._apply_clifford"], backend="arbitrary sets as GF(2) forms, all gate pairs")
def _(ob):
    cls = need(R, "_RemovePauliMeasurements"); f = need(cls, "_apply_clifford"); spec_c = need(R, "_NodeSpec")
    def pend(c, s, t):
        m = CL[c]
        if s: m = m @ M.X
        if t: m = m @ M.Z
        return m
    for g in Clifford:
        ok = True
        for c in Clifford:
            self = types.SimpleNamespace(node_specs={3: spec_c(3, Domains(DSet({"s"}), DSet({"t"})), c)}, input_node_set=set(), pauli_measurements={})
            f(self, 3, g)
            sp = self.node_specs[3]
            for s, t in itertools.product((0, 1), repeat=2):
                v = {"s": s, "t": t}
                ok = ok and sp.src == 3 and M.prop_equal(pend(c, s, t) @ CL[g], pend(sp.clifford, parity(sp.domains.s_domain, v), parity(sp.domains.t_domain, v)))
        for pm in PauliMeasurement:
            for inp in (False, True):
                sets = {a: ({7, 30} if a == pm.axis and not inp else {30 + a.value if hasattr(a, "value") and isinstance(a.value, int) else 31}) for a in Axis}
                before = {a: set(x) for a, x in sets.items()}
                sp = spec_c(7, Domains(DSet({"s"}), DSet({"t"})), Clifford.I, pm)
                self = types.SimpleNamespace(node_specs={3: sp}, input_node_set={3} if inp else set(), pauli_measurements=sets)
                f(self, 3, g)
                sp = self.node_specs[3]
                for o in (0, 1):
                    ok = ok and M.prop_equal(psim.bra(pm, o) @ CL[g], psim.bra(sp.pauli_measurement, o))
                if not inp:
                    ok = ok and all((7 in sets[a]) == (a == sp.pauli_measurement.axis) and sets[a] - {7} == before[a] - {7} for a in Axis)
                else:
                    ok = ok and sets == before
        ob.check(f"gate {g.value} moved into the node annotation, for every pending gate, parity and Pauli description", ok)

# -- graph rewriting, for every graph -------------------------------------------------------------------------------------
class Rec:
    """the process, with the graph arbitrary and the local gates and calls recorded"""
    def __init__(s, c, **k):
        s.__dict__.update(k); s._c = c; s.calls = []
    def _apply_clifford(s, n, g): s._c.effects.append((list(s._c.guard), PR.term(n), g))
    def _remove_node(s, n): s.calls.append(("remove", PR.term(n)))
    def __getattr__(s, a): raise Unfit(f"the process uses {a}")

def lifted(fn):
    """the method with the module's own helpers lifted as well"""
    help_ = {k: PR.lift(v) for k, v in vars(R).items() if k in ("_complement_subgraph", "_complement_edges")}
    return PR.lift(need(need(R, "_RemovePauliMeasurements"), fn), **help_)

def gates(ob, c, classes, want, what):
    """the product of the gates applied to an arbitrary node of each class"""
    z3 = PR.z3
    for name, (y, facts) in classes.items():
        got = Clifford.I; ok = True
        for guard, n, g in c.effects:
            f = z3.substitute(z3.And(n == y, *guard), *([(n, y)] if n.decl().name().startswith("x!") else []))
            k = PR.Ctx(c.facts + facts)
            if k.valid(f) is True: got = got @ g
            elif k.valid(z3.Not(f)) is not True: ok = False
        ob.structural(f"{what}: gate on {name}", ok and got == want[name])

def toggles(ob, c, e, spec, a, b, facts, what):
    z3 = PR.z3; k = PR.Ctx(c.facts + facts)
    ob.structural(f"{what}: exactly the specified pairs of nodes are toggled", k.valid(z3.And(e(a, b) == z3.Xor(PR.ADJ(a, b), spec(a, b)), e(a, b) == e(b, a)), [a, b]) is True)

@P.proof("graph rewriting", [F + "_complement_subgraph", F + "_complement_edges"] + [F + "_RemovePauliMeasurements." + m for m in ("local_complement", "pivot_edge", "remove_z", "remove_y", "remove_x_with_internal_neighbor")], backend="z3: arbitrary graphs as relations, arbitrary node sets")
def rewriting(ob):
    z3 = PR.z3; a, b, u, v = (z3.Const(n, PR.N) for n in "abuv"); ne = a != b; S, T = (z3.Function(n, PR.N, PR.B) for n in "ST"); adj = PR.ADJ
    def go(c):
        g = PR.Graph(); PR.lift(need(R, "_complement_subgraph"))(g, PR.NodeSet(lambda x: S(x))); c.g = g
    c = PR.run([], go); toggles(ob, c, c.g.e, lambda x, y: z3.And(S(x), S(y)), a, b, [ne], "_complement_subgraph")
    def go(c):
        g = PR.Graph(); PR.lift(need(R, "_complement_edges"))(g, PR.NodeSet(lambda x: S(x)), PR.NodeSet(lambda x: T(x))); c.g = g
    x = z3.Const("x", PR.N); disj = z3.ForAll([x], z3.Not(z3.And(S(x), T(x))))
    c = PR.run([disj], go); toggles(ob, c, c.g.e, lambda p, q: z3.Or(z3.And(S(p), T(q)), z3.And(S(q), T(p))), a, b, [ne], "_complement_edges")
    U, V = PR.Node(u), PR.Node(v)
    def go(c):
        c.g = PR.Graph(); lifted("local_complement")(Rec(c, graph=c.g), U)
    c = PR.run([], go); toggles(ob, c, c.g.e, lambda p, q: z3.And(adj(u, p), adj(u, q)), a, b, [ne], "local_complement")
    gates(ob, c, {"the node": (u, []), "a neighbour": (a, [a != u, adj(u, a)]), "another node": (a, [a != u, z3.Not(adj(u, a))])}, {"the node": Clifford.H @ Clifford.SDG @ Clifford.H, "a neighbour": Clifford.S, "another node": Clifford.I}, "local_complement")
    for uo, vo in itertools.product((False, True), repeat=2):
        def go(c):
            src = [types.SimpleNamespace(src="su"), types.SimpleNamespace(src="sv")]; c.g = PR.Graph()
            c.s = Rec(c, graph=c.g, node_specs={U: src[0], V: src[1]}, node_map={"su": U, "sv": V}, output_node_set={n for n, o in ((U, uo), (V, vo)) if o}, input_node_set=set()); c.src = src
            lifted("pivot_edge")(c.s, U, V)
        c = PR.run([u != v, adj(u, v)], go); w = f"pivot_edge, outputs {uo, vo}"; others = [a != u, a != v, b != u, b != v]
        cl = lambda p: (z3.And(adj(u, p), z3.Not(adj(v, p))), z3.And(adj(v, p), z3.Not(adj(u, p))), z3.And(adj(u, p), adj(v, p)))
        toggles(ob, c, c.g.e, lambda p, q: z3.Or(*[z3.And(cl(p)[i], cl(q)[j]) for i, j in itertools.permutations(range(3), 2)]), a, b, [ne, *others], w)
        toggles(ob, c, c.g.e, lambda p, q: z3.BoolVal(False), u, b, [b != u], w + ", edges of the first node"); toggles(ob, c, c.g.e, lambda p, q: z3.BoolVal(False), v, b, [b != v], w + ", edges of the second node")
        gates(ob, c, {"u": (u, []), "v": (v, []), "a common neighbour": (a, [*others[:2], cl(a)[2]]), "another node": (a, [*others[:2], z3.Not(cl(a)[2])])}, {"u": Clifford.H, "v": Clifford.H, "a common neighbour": Clifford.Z, "another node": Clifford.I}, w)
        s = c.s; ob.structural(f"{w}: annotations, node map and outputs are exchanged", s.node_specs[U] is c.src[1] and s.node_specs[V] is c.src[0] and len(s.node_specs) == 2 and s.node_map["su"] is V and s.node_map["sv"] is U and {id(n) for n in s.output_node_set} == {id(n) for n, o in ((V, uo), (U, vo)) if o})
    for sign in Sign:
        def go(c):
            c.g = PR.Graph(); c.s = Rec(c, graph=c.g); lifted("remove_z")(c.s, U, sign)
        c = PR.run([], go); z = Clifford.Z if sign == Sign.MINUS else Clifford.I
        gates(ob, c, {"a neighbour": (a, [a != u, adj(u, a)]), "another node": (a, [a != u, z3.Not(adj(u, a))])}, {"a neighbour": z, "another node": Clifford.I}, f"remove_z {sign}")
        ob.structural(f"remove_z {sign}: the node is removed, other edges are kept", len(c.s.calls) == 1 and c.s.calls[0][1] is u and PR.Ctx([a != u, b != u, ne]).valid(c.g.e(a, b) == adj(a, b), [a, b]) is True)
        for nm, args, want in (("remove_y", (U, sign), [("local_complement", U), ("remove_z", U, sign)]), ("remove_x_with_internal_neighbor", (U, V, sign), [("pivot_edge", U, V), ("remove_z", V, sign)])):
            calls = []; mk_ = lambda n: lambda *x: calls.append((n, *x))
            PR.run([], lambda c: lifted(nm)(types.SimpleNamespace(**{n: mk_(n) for n in ("local_complement", "pivot_edge", "remove_z")}), *args))
            ob.structural(f"{nm} {sign}: composed of the rewriting and the removal", len(calls) == len(want) and all(len(p) == len(q) and all(x is y or x == y for x, y in zip(p, q)) for p, q in zip(calls, want)))

def process(p):
    return need(R, "_RemovePauliMeasurements")(R.PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p)))
def after(pr): return pr.to_standardizedpattern().to_pattern()

@P.proof("graph-state identities", [F + "_RemovePauliMeasurements." + m for m in ("local_complement", "pivot_edge", "remove_z", "remove_y", "remove_x_with_internal_neighbor", "_remove_node", "to_standardizedpattern")], backend="every graph on the operated nodes and two others, every role of these; quadratic forms mod 4")
def identities(ob):
    for k, nm in ((1, "local_complement"), (2, "pivot_edge"), (1, "remove_z"), (1, "remove_y"), (2, "remove_x_with_internal_neighbor")):
        es = list(itertools.combinations(range(k + 2), 2)); free = [e for e in es if k == 1 or e != (0, 1)]; labels = (10, 3, 7, 5)[: k + 2]; ok = {}
        for mask in itertools.product((0, 1), repeat=len(free)):
            edges = [e for e, bt in zip(free, mask) if bt] + ([(0, 1)] if k == 2 else [])
            for ins in ((), (k,), (k, k + 1)):
                for u_meas in ([None] if nm in ("local_complement", "pivot_edge") else [PauliMeasurement(dict(z=Axis.Z, y=Axis.Y, x=Axis.X)[nm[7]], s) for s in Sign]):
                    for v_role in ("output", "measured") if k == 2 else ("",):
                        L = lambda i: labels[i]
                        meas = {L(0): u_meas} if u_meas else {}
                        if v_role == "measured": meas[L(1)] = BlochMeasurement(.3, Plane.XY)
                        outs = [L(i) for i in range(k + 2) if L(i) not in meas]
                        cmds = [N(L(i)) for i in range(k + 2) if i not in ins] + [E((L(i), L(j))) for i, j in edges] + [Meas(x, m) for x, m in meas.items()]
                        p = Pattern(input_nodes=[L(i) for i in ins], cmds=cmds, output_nodes=outs); pr = process(p)
                        f = need(pr, nm); case = f"edges {edges} inputs {ins} {u_meas} {v_role}"
                        if nm in ("remove_z", "remove_y"): f(L(0), u_meas.sign)
                        elif nm == "local_complement": f(L(0))
                        elif nm == "pivot_edge": f(L(0), L(1))
                        else: f(L(0), L(1), u_meas.sign)
                        q = after(pr); mq = psim.measured(q)
                        if len(mq) != len(meas) - (nm[0] == "r") or len(q.output_nodes) != len(outs): ob.check(f"{nm}: {case}: nodes measured {mq}, outputs {q.output_nodes}", False, case); continue
                        for o in itertools.product((0, 1), repeat=len(mq)):
                            want, _ = psim.branch(p, {x: 0 for x in meas} | ({L(1): o[0]} if o else {})); got, _ = psim.branch(q, dict(zip(mq, o)))
                            good = M.prop_equal(want, got) and (np.linalg.norm(want) > 1e-9 or np.linalg.norm(got) < 1e-9)
                            if not good: ob.check(f"{nm}: {case}, outcome {o}: the map is changed", False, case)
                            else: ok[ins, v_role] = ok.get((ins, v_role), 0) + 1
        for (ins, role), n in ok.items(): ob.check(f"{nm}, {len(ins)} input neighbours {role}: same map on {n} graphs, descriptions and outcomes", True)

def outmap(p, o): return psim.branch(p, o)[0]

def meas_pauli(r): return G.measurement(r, pauli=.65, bloch_pauli=0.0)
def no_bloch_pauli(r):
    if r.random() < .65: return PauliMeasurement(r.choice(list(Axis)), r.choice(list(Sign)))
    return BlochMeasurement(round(r.uniform(0.05, 0.45) + 0.5 * r.randrange(4), 4), r.choice(list(Plane)))

def gen(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(2, 8), lambda r: r.random() < .5, lambda r: r.random() < .3)

def mk(seed, n, flow):
    r = random.Random(seed)
    if flow:
        og = G.flow_graph(r, r.randrange(1, 3), r.randrange(1, 4), meas=lambda r: PauliMeasurement(r.choice([Axis.X, Axis.Y]), r.choice(list(Sign))) if r.random() < .6 else BlochMeasurement(round(r.uniform(.05, .45) + .5 * r.randrange(4), 4), Plane.XY))
        try: return r, og.to_pattern()
        except Exception: return r, None
    return r, G.pattern(r, n, cliffords=0.05, states=r.random() < .35, late=r.random() < .5, meas=no_bloch_pauli, edges=r.choice([.2, .4, .6]), domains=.5)

@P.bounded("pushing", [F + "PauliPushingCut.from_standardizedpattern", F + "PauliPushingCut.to_standardizedpattern", "graphix/pattern.py:Pattern.perform_pauli_pushing",
                       "graphix/optimization.py:StandardizedPattern.perform_pauli_pushing"], gen,
           "random patterns of 2..7 nodes, up to 64 outcome assignments, with and without nodes left in place", quick=8, thorough=150)
def pushing(case):
    seed, n, std, flow = case
    r, p = mk(seed, n, flow)
    if p is None: return "skip"
    try: sp = StandardizedPattern.from_pattern(p)
    except NotImplementedError: return "skip"
    ms = psim.measured(p)
    pauli = [c.node for c in p if c.kind == CommandKind.M and isinstance(c.measurement, PauliMeasurement)]
    leave = set(r.sample(pauli, r.randrange(len(pauli) + 1))) if pauli and r.random() < .5 else None
    before = repr(p)
    cut = R.PauliPushingCut.from_standardizedpattern(sp, leave)
    q = p.perform_pauli_pushing(leave_nodes=leave, copy=True, standardize=std)
    assert repr(p) == before, "the pattern was modified"
    q2 = p.copy(); assert q2.perform_pauli_pushing(leave_nodes=leave, standardize=std) is q2 and q2 == q
    q.check_runnability()
    mq = [c for c in q if c.kind == CommandKind.M]
    moved = [isinstance(c.measurement, PauliMeasurement) and c.node not in (leave or ()) for c in mq]
    assert moved == sorted(moved, reverse=True), "a Pauli measurement was not moved to the front"
    assert all(not c.s_domain and not c.t_domain for c, b in zip(mq, moved) if b), "a pushed Pauli measurement has a domain"
    assert sorted(psim.measured(q)) == sorted(ms) and q.output_nodes == p.output_nodes and q.input_nodes == p.input_nodes
    # new outcomes -> original outcomes through the shifted domains of the cut
    return psim.same_branches(q, p, relabel=lambda o: shift_outcomes(o, cut.shifted_domains), limit=64, rng=r)

def special(p):
    """nodes that are not prepared in |+>"""
    return set(p.input_nodes) | {c.node for c in p if c.kind == CommandKind.N and c.state != BasicStates.PLUS}

def normal_form(q):
    sp = special(q); outs = set(q.output_nodes); nb = {v: set() for v in q.nodes()}
    edges = {}
    for c in q:
        if c.kind == CommandKind.E:
            e = frozenset(c.nodes); edges[e] = not edges.get(e, False)
    for e, on in edges.items():
        if on:
            a, b = e; nb[a].add(b); nb[b].add(a)
    for c in q:
        if c.kind == CommandKind.M and isinstance(c.measurement, PauliMeasurement) and c.node not in sp:
            m = c.measurement
            if m.axis != Axis.X: return f"{m} on the non-input node {c.node} is left"
            if not nb[c.node]:
                if m.sign == Sign.MINUS: continue
                return f"isolated measurement of node {c.node} is left"
            bad = [v for v in nb[c.node] if v not in sp]
            if bad: return f"X-measured node {c.node} is left although connected to {bad}"
    return None

@P.bounded("removal", [F + "remove_pauli_measurements", F + "_RemovePauliMeasurements", "graphix/pattern.py:Pattern.remove_pauli_measurements"], gen,
           "random patterns (2..7 nodes, arbitrary preparations) and patterns from causal flows; all branches of the other measurements", quick=14, thorough=240)
def removal(case):
    seed, n, std, flow = case
    r, p = mk(seed, n, flow)
    if p is None: return "skip"
    before = repr(p)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try: q = p.remove_pauli_measurements(copy=True, standardize=std)
        except NotImplementedError: return "skip"
    lossy = any("isolated" in str(x.message) for x in w)
    assert repr(p) == before, "the pattern was modified"
    q.check_runnability()
    assert q.input_nodes == p.input_nodes and len(q.output_nodes) == len(p.output_nodes)
    pushed = p.perform_pauli_pushing(copy=True, standardize=True)
    if not lossy:
        msg = normal_form(q)
        if msg: return msg
    inplace = p.copy(); assert inplace.remove_pauli_measurements(standardize=std) is inplace
    assert inplace.nodes() == q.nodes() and inplace.n_node == len(q.nodes()), f"n_node {inplace.n_node} for nodes {q.nodes()}"
    mp = [c for c in pushed if c.kind == CommandKind.M]; mq = [c for c in q if c.kind == CommandKind.M]
    np_p = [c.node for c in mp if not isinstance(c.measurement, PauliMeasurement)]
    np_q = [c.node for c in mq if not isinstance(c.measurement, PauliMeasurement)]
    keep = special(p)
    kept_p = [c.node for c in mp if isinstance(c.measurement, PauliMeasurement) and c.node in keep]
    for v in kept_p: assert v in {c.node for c in mq}, f"measurement of the input node {v} was removed"
    ratio = None
    if lossy:
        free = kept_p; np_pairs = []
    else:
        assert len(np_p) == len(np_q), "a non-Pauli measurement was removed without warning"
        np_pairs = list(zip(np_p, np_q)); free = kept_p + np_p
    pairs = dict(np_pairs)
    for o in psim.outcomes_iter(free, 64, r):
        op = {c.node: 0 for c in mp} | o
        oq = {c.node: 0 for c in mq} | {v: o[v] for v in kept_p} | {pairs[v]: o[v] for v in np_p if v in pairs}
        a, b = outmap(pushed, op), outmap(q, oq)
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if na < 1e-9 and (lossy or nb < 1e-9): continue
        if na < 1e-9 and all(v == 0 for v in o.values()): continue
        if na < 1e-9:
            return f"branch {o} is impossible in the pattern but not after removal"
        if not M.prop_equal(a, b):
            return f"branch {o} (others 0): {np.round(a, 3).tolist()} became {np.round(b, 3).tolist()}"
        if not lossy:
            if ratio is None: ratio = nb / na
            elif abs(nb / na - ratio) > 1e-6 * ratio: return f"branch {o}: relative probability changed"

def gen3(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(2, 7))

@P.bounded("removal steps", [F + "_RemovePauliMeasurements.local_complement", F + "_RemovePauliMeasurements.pivot_edge", F + "_RemovePauliMeasurements.remove_z",
                             F + "_RemovePauliMeasurements.remove_y", F + "_RemovePauliMeasurements.remove_x_with_internal_neighbor", F + "_complement_subgraph", F + "_complement_edges"], gen3,
           "random sequences of local complementations and pivots on random patterns of 2..6 nodes, every branch", quick=8, thorough=120)
def steps(case):
    seed, n = case
    r = random.Random(seed)
    p = G.pattern(r, n, cliffords=0.0, states=False, late=False, meas=no_bloch_pauli, n_in=r.randrange(0, 2), edges=.5)
    cls = need(R, "_RemovePauliMeasurements")
    sp = StandardizedPattern.from_pattern(p)
    cut = R.PauliPushingCut.from_standardizedpattern(sp)
    pr = cls(cut)
    pushed = cut.to_standardizedpattern().to_pattern()
    order = [c.node for c in cut.measurements]
    ins = set(p.input_nodes)
    for _ in range(r.randrange(1, 4)):
        nodes = [v for v in pr.graph.nodes if v not in ins]
        if not nodes: break
        if r.random() < .5:
            pr.local_complement(r.choice(nodes))
        else:
            es = [e for e in pr.graph.edges if not set(e) & ins]
            if not es: continue
            u, v = r.choice(es)
            if r.random() < .5: u, v = v, u
            pr.pivot_edge(u, v)
    for u, v in need(pr, "node_map").items():
        assert pr.node_specs[v].src == u
    q = pr.to_standardizedpattern().to_pattern()
    mq = psim.measured(q)
    assert len(mq) == len(order)
    pair = dict(zip(order, mq))
    # no node is removed: equality in every branch
    return psim.same_branches(pushed, q, relabel=lambda o: {pair[k]: x for k, x in o.items()}, limit=32, rng=r)


@P.proof("passes on patterns: composition", ["graphix/pattern.py:Pattern.perform_pauli_pushing", "graphix/pattern.py:Pattern.remove_pauli_measurements", F + "PauliPushingCut.to_standardizedpattern", F + "_expand_corrections", "graphix/optimization.py:StandardizedPattern.perform_pauli_pushing"], "terms over the contracts of the callees")
def wrappers_unit(ob):
    from gv.chains import Ch, Me
    from gv.extract import rebind
    from graphix.pattern import Pattern
    import sys
    opt = Ch("optimization")
    for copy in (False, True):
        for std in (False, True):
            for leave in (None, Ch("leave")):
                me = Me(); r = rebind(Pattern.perform_pauli_pushing, optimization=opt)(me, leave_nodes=leave, copy=copy, standardize=std, stacklevel=4)
                sp = opt.StandardizedPattern.from_pattern(me).perform_pauli_pushing(leave, stacklevel=5)
                new = sp.to_pattern() if std else sp.to_space_optimal_pattern(); tag = f"pushing copy={copy} standardize={std} leave={leave is not None}"
                ob.structural(f"{tag}: the pushed standard form", (r == new and not me.gv_set) if copy else (r is me and me.gv_set == {"_Pattern__seq": getattr(new, "_Pattern__seq")}))
            mod = sys.modules["graphix.remove_pauli_measurements"]; old = mod.PauliPushingCut, mod.remove_pauli_measurements
            mod.PauliPushingCut, mod.remove_pauli_measurements = Ch("Cut"), Ch("remove")
            try: me = Me(); r = rebind(Pattern.remove_pauli_measurements, optimization=opt)(me, copy=copy, standardize=std, stacklevel=4)
            finally: mod.PauliPushingCut, mod.remove_pauli_measurements = old
            sp = Ch("remove")(Ch("Cut").from_standardizedpattern(opt.StandardizedPattern.from_pattern(me), stacklevel=5), stacklevel=5)
            new = sp.to_pattern() if std else sp.to_space_optimal_pattern(); tag = f"removal copy={copy} standardize={std}"
            ob.structural(f"{tag}: the standard form without Pauli measurements", (r == new and not me.gv_set) if copy else (r is me and me.gv_set == {a: getattr(new, a) for a in ("_Pattern__seq", "_Pattern__output_nodes", "_Pattern__n_node")}))

    from graphix.optimization import StandardizedPattern as SP
    for leave in (None, Ch("leave")):
        mod = sys.modules["graphix.remove_pauli_measurements"]; old = mod.PauliPushingCut; mod.PauliPushingCut = Ch("Cut")
        try: me = Me(); r = rebind(SP.perform_pauli_pushing)(me, leave, stacklevel=4)
        finally: mod.PauliPushingCut = old
        ob.structural(f"pushing of a standard form, leave={leave is not None}: that of its cut", r == Ch("Cut").from_standardizedpattern(me, leave, stacklevel=5).to_standardizedpattern() and not me.gv_set)
    me = Me(); o = me.original_pattern; args = []
    def made(*a, **k):
        args.append({**dict(zip([f.name for f in __import__("dataclasses").fields(SP)], a)), **k}); return "made"
    r = rebind(need(R, "PauliPushingCut").to_standardizedpattern, StandardizedPattern=made, _expand_corrections=Ch("expand"))(me)
    ob.structural("the pushed standard form: its measurements, with the shifts merged into the corrections, and all else the same", r == "made" and not me.gv_set and args == [
        dict(input_nodes=o.input_nodes, output_nodes=o.output_nodes, n_list=o.n_list, e_set=o.e_set, m_list=me.measurements, z_dict=Ch("expand")(me.shifted_domains, o.z_dict), x_dict=Ch("expand")(me.shifted_domains, o.x_dict), c_dict=o.c_dict)])
    for k in range(4):
        d = {f"n{i}": f"d{i}" for i in range(k)}
        ob.structural(f"corrections on {k} nodes: every domain is expanded, in a new dictionary", (r := rebind(need(R, "_expand_corrections"), _expand_domain=lambda a, b: (a, b))("shifts", d)) == {n: ("shifts", x) for n, x in d.items()} and r is not d)

class Cmd:
    def __init__(self, **k): self.__dict__.update(k)

@P.proof("removal driver", [F + "remove_pauli_measurements"] + [F + "_RemovePauliMeasurements." + m for m in ("__init__", "remove_all_y_or_z", "try_remove_x_with_internal_neighbor", "try_pivot_x_with_output_node", "remove_isolated_internal_nodes")], "evaluation: every role of a node and of its neighbours, every answer of the steps")
def driver_unit(ob):
    """The steps are called where their contracts allow it, until none applies: Invariant: a node of pauli_measurements[a] is mapped to a non-input
    node whose annotation has it as source and a measurement along a."""
    from gv.extract import rebind
    import networkx as nx, warnings
    cls = need(R, "_RemovePauliMeasurements"); PM = PauliMeasurement
    # initial state: nodes are independent of each other
    for inp, plus, outp, corr, cl in itertools.product((False, True), (False, True), (False, True), range(4), (None, Clifford.S)):
        for pm in (None, *PM):
            if outp and pm is not None: continue
            sp = Cmd(graph=lambda: nx.Graph([("n", "o")]), input_nodes=["n"] if inp else [], output_nodes=["n"] if outp else [], x_dict={"n": "dx"} if corr & 1 else {}, z_dict={"n": "dz"} if corr & 2 else {},
                     c_dict={} if cl is None else {"n": cl}, n_list=[] if inp else [Cmd(node="n", state=BasicStates.PLUS if plus else BasicStates.ZERO)])
            ms = (Cmd(node="n", measurement=pm),) if pm is not None else ()
            cut = Cmd(original_pattern=sp, shifted_domains="shifts", measurements="all", pauli_measurements=ms)
            me = types.SimpleNamespace(); rebind(need(cls, "__init__"), _expand_domain=lambda s, d: ("expanded", s, d))(me, cut)
            spec = me.node_specs["n"]; fixed = inp or not plus; tag = f"initially input={inp} plus={plus} output={outp} corrections={corr} gate={cl} measured={pm}"
            ob.structural(f"{tag}: annotation", spec.src == "n" and spec.clifford == (cl or Clifford.I) and spec.pauli_measurement == pm
                          and spec.domains.s_domain == (("expanded", "shifts", "dx") if corr & 1 else set()) and spec.domains.t_domain == (("expanded", "shifts", "dz") if corr & 2 else set()))
            ob.structural(f"{tag}: invariant, inputs and outputs", me.node_map == {"n": "n", "o": "o"} and set(me.input_node_set) == ({"n"} if fixed else set()) and set(me.output_node_set) == ({"n"} if outp else set())
                          and {a: set(v) for a, v in me.pauli_measurements.items()} == {a: {"n"} if pm is not None and not fixed and pm.axis == a else set() for a in Axis} and me.measurements == "all")
    # steps 1 and 2: with an arbitrary effect of the removal of a Y measured node on the others
    rem = rebind(need(cls, "remove_all_y_or_z"))
    for k in range(3):
        for axes in itertools.product(Axis, repeat=k):
            for moves in itertools.product(list(itertools.product(Axis, repeat=max(k - 1, 0))), repeat=k):
                nodes = [f"s{i}" for i in range(k)]; at = {n: f"at {n}" for n in nodes}; log = []; ok = [True]; it = iter(moves)
                specs = {at[n]: Cmd(src=n, pauli_measurement=PM(a, Sign.MINUS if i else Sign.PLUS)) for i, (n, a) in enumerate(zip(nodes, axes))}
                sets = {a: {n for n, x in zip(nodes, axes) if x == a} for a in Axis}
                def removed(axis, u, sign):
                    sp = specs.get(u)
                    if sp is None or sp.pauli_measurement.axis != axis or sp.pauli_measurement.sign != sign: ok[0] = False; raise Unfit("precondition of a removal")
                    sets[axis].remove(sp.src); del specs[u]; log.append(sp.src)
                def ry(u, sign):
                    removed(Axis.Y, u, sign)
                    for x, a in zip(specs.values(), next(it)):
                        sets[x.pauli_measurement.axis].remove(x.src); x.pauli_measurement = PM(a, x.pauli_measurement.sign); sets[a].add(x.src)
                rem(types.SimpleNamespace(pauli_measurements=sets, node_map=at, node_specs=specs, remove_y=ry, remove_z=lambda u, sign: removed(Axis.Z, u, sign)))
                ob.structural(f"steps 1 and 2, measurements {[a.name for a in axes]} changing to {moves}: no Y or Z is left", ok[0] and not sets[Axis.Y] and not sets[Axis.Z] and not any(x.pauli_measurement.axis != Axis.X for x in specs.values()))
    # steps 3 and 4: every set of roles of the neighbours of one or two X measured nodes
    roles = [(False, False), (False, True), (True, False), (True, True)]      # input, output
    t3, t4 = (rebind(need(cls, m)) for m in ("try_remove_x_with_internal_neighbor", "try_pivot_x_with_output_node"))
    subsets = [[r for i, r in enumerate(roles) if k >> i & 1] for k in range(16)]
    for nbs in [[], *[[a] for a in subsets], *itertools.product(subsets[::3], subsets[1::4])]:
        for step in (3, 4):
            g = nx.Graph(); ins, outs, specs, at = set(), set(), {}, {}; log = []
            for i, rs in enumerate(nbs):
                at[i] = f"x{i}"; specs[f"x{i}"] = Cmd(src=i, pauli_measurement=PM(Axis.X, Sign.MINUS if i else Sign.PLUS)); g.add_node(f"x{i}")
                for a, b in rs:
                    v = f"v{i}{a}{b}"; g.add_edge(f"x{i}", v)
                    if a: ins.add(v)
                    if b: outs.add(v)
            me = types.SimpleNamespace(graph=g, pauli_measurements={a: set(at) if a == Axis.X else set() for a in Axis}, node_map=at, node_specs=specs, input_node_set=ins, output_node_set=outs,
                remove_x_with_internal_neighbor=lambda u, v, s: log.append((u, v, s)), pivot_edge=lambda u, v: log.append((u, v)))
            r = (t3 if step == 3 else t4)(me)
            fit = {(u, v) for u in at.values() for v in g.neighbors(u) if v not in ins and (v in outs) == (step == 4)}
            tag = f"step {step}, neighbours {nbs}"
            if r: ob.structural(f"{tag}: applied once, to a neighbour that is {'an output' if step == 4 else 'not an output'} and no input", len(log) == 1 and log[0][:2] in fit and (step == 4 or log[0][2] == specs[log[0][0]].pauli_measurement.sign))
            else: ob.structural(f"{tag}: not applied only if there is none", not log and not fit)
    # isolated nodes
    iso = rebind(need(cls, "remove_isolated_internal_nodes"))
    for inp, outp, pm, lone in itertools.product((False, True), (False, True), (None, *PM), (False, True)):
        g = nx.Graph(); g.add_node("n"); log = []
        if not lone: g.add_edge("n", "o")
        me = types.SimpleNamespace(graph=g, input_node_set={"n"} if inp else set(), output_node_set={"n"} if outp else set(), node_specs={"n": Cmd(pauli_measurement=pm)}, _remove_node=log.append)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always"); iso(me, stacklevel=1)
        gone = lone and not inp and not outp and pm != PM(Axis.X, Sign.MINUS)
        ob.structural(f"isolated={lone} input={inp} output={outp} measured={pm}: {'removed' if gone else 'left'}, with a warning exactly if a measurement is lost", log == (["n"] if gone else []) and len(w) == (gone and pm is None))
    # the whole process
    for ans in [a for n in range(5) for a in itertools.product((False, True), repeat=n)]:
        log = []; it = iter(ans)
        def answer(what):
            log.append(what); return next(it, False)
        class Proc:
            def __init__(self, cut): log.append(cut)
            def remove_all_y_or_z(self): log.append("12")
            def try_remove_x_with_internal_neighbor(self): return answer("3")
            def try_pivot_x_with_output_node(self): return answer("4")
            def remove_isolated_internal_nodes(self, stacklevel=1): log.append("isolated")
            def to_standardizedpattern(self): log.append("out"); return "result"
        r = rebind(need(R, "remove_pauli_measurements"), _RemovePauliMeasurements=Proc)("cut")
        want = ["cut"]; it = iter(ans)
        while True:
            want.append("12"); want.append("3")
            if next(it, False): continue
            want.append("4")
            if not next(it, False): break
        ob.structural(f"answers of the steps {ans}: steps until none applies, then isolated nodes", r == "result" and log == [*want, "isolated", "out"])
