from __future__ import annotations
import itertools, random, types
import numpy as np
from gv import boot, mats as M, psim, gen as G, exact  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.symset import DSet, SymSet, form, parity
from graphix import optimization as O
from graphix.clifford import Clifford
from graphix.command import C, CommandKind, E, M as Meas, N, S, T, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.pattern import Pattern
from graphix.states import BasicStates

F, FP, FC = "graphix/optimization.py:", "graphix/pattern.py:", "graphix/command.py:"
P = Prop("C08", "proof",
    "Per-command contracts are proved for arbitrary parity sets and arbitrary injective renumberings (one step of the local-Clifford pass for every gate, renaming and largest index; splitting of domains; domain dropping for every Pauli "
    "and Bloch description, reindexing of every command kind, mapping of measurements). Whole passes are run on random patterns: every "
    "branch map before and after, normal form, frame of the original (bounded).",
    ["Clifford-to-pattern fragments through the flow contract (C14)"],
    ["semantics of patterns in gv/psim.py"])

def bas(meas, s, t, o):
    x = psim.bra(meas, o)
    if t: x = x * np.array([1, -1])
    return x[::-1] if s else x

MS = [*PauliMeasurement, *(BlochMeasurement(a, p) for p in Plane for a in (0.0, 0.3, 0.5, 1.0, 1.7))]

@P.proof("useless domains, one command", [F + "remove_useless_domains"], backend="arbitrary sets as GF(2) forms")
def _(ob):
    for m in MS:
        p = Pattern(input_nodes=[3, 5]); c = Meas(3, m, DSet({"s"}), DSet({"t"})); x, z = X(5, DSet({"d"})), Z(5, DSet({"e"}))
        p.extend([c, x, z])
        q = list(O.remove_useless_domains(p))
        new = q[0]
        ok = len(q) == 3 and new.node == 3 and new.kind == CommandKind.M and q[1].kind == CommandKind.X and form(q[1].domain) == frozenset("d") and form(q[2].domain) == frozenset("e")
        ok = ok and form(c.s_domain) == frozenset("s") and form(c.t_domain) == frozenset("t")
        for s, t, o in itertools.product((0, 1), repeat=3):
            v = {"s": s, "t": t}
            ok = ok and M.prop_equal(bas(m, s, t, o), bas(new.measurement, parity(new.s_domain, v), parity(new.t_domain, v), o))
        ob.check(f"{m}: same basis for all parities", ok)

@P.proof("renumbering of commands", [FC + "N.reindex", FC + "M.reindex", FC + "E.reindex", FC + "C.reindex", FC + "X.reindex", FC + "Z.reindex", FC + "S.reindex", FC + "T.reindex"],
         backend="uninterpreted renumbering")
def _(ob):
    f = lambda n: ("f", n)
    st = BasicStates.MINUS_I
    for size in range(4):
        for size2 in range(3):
            a, b = {f"a{i}" for i in range(size)}, {f"a{i}" for i in range(1, 1 + size2)}
            fa, fb = {f(x) for x in a}, {f(x) for x in b}
            m = Measurement.YZ(0.3)
            ob.check(f"domains of sizes {size},{size2}",
                     Meas("n", m, set(a), set(b)).reindex(f) == Meas(f("n"), m, fa, fb) and all(k("n", set(a)).reindex(f) == k(f("n"), fa) for k in (X, Z, S)))
    ob.check("N, E, C, T", N("n", st).reindex(f) == N(f("n"), st) and E(("u", "v")).reindex(f) == E((f("u"), f("v"))) and C("n", Clifford(9)).reindex(f) == C(f("n"), Clifford(9)) and T().reindex(f) == T())

@P.proof("mapping of measurements", [FP + "Pattern.apply", FP + "Pattern.map", FC + "M.map"], backend="uninterpreted function on measurements")
def _(ob):
    m = Measurement.YZ(0.3)
    s, t = DSet({"s"}), DSet({"t"})
    for cp in (False, True):
        p = Pattern(input_nodes=[1, 2, 3]); cmds = [Meas(1, m, s, t), X(2, {1}), Meas(3, Measurement.X), Z(2, {3}), C(2, Clifford.H)]
        p.extend(cmds); p.reorder_output_nodes([2])
        r = p.apply(lambda x: ("f", x), copy=cp)
        q = list(r)
        ob.check(f"each measurement is replaced by its image, nothing else (copy={cp})", q[0].measurement == ("f", m) and form(q[0].s_domain) == form(s) and form(q[0].t_domain) == form(t)
                 and q[2].measurement == ("f", Measurement.X) and [q[1], q[3], q[4]] == [cmds[1], cmds[3], cmds[4]] and r.output_nodes == [2] and (r is p) == (not cp) and (not cp or list(p) == cmds))

def gen(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 8), lambda r: r.choice(["single", "useless", "inputs", "infer", "bloch", "reindex"]))

def domains(p):
    for c in p:
        if c.kind == CommandKind.M: yield c.s_domain; yield c.t_domain
        elif c.kind in (CommandKind.X, CommandKind.Z): yield c.domain

@P.proof("renumbering of a pattern", [FP + "Pattern.reindex"], "recording stand-ins for the callees, opaque nodes and commands")
def reindex_pattern(ob):
    """The renumbered pattern is built from the renumbered inputs and commands in their order, and its outputs are the renumbered outputs in their order (contracts of the constructor, add,
    reorder_output_nodes and the reindex of commands); nodes that the mapping leaves out keep their label; without `copy` the pattern itself becomes that pattern."""
    from gv.extract import rebind
    class Node_:
        def __init__(self, n): self.n = n
        def __repr__(self): return self.n
    a, b, c, x, y = (Node_(n) for n in "abcxy"); ren = {a: x, c: y}
    class Cmd:
        def __init__(self, n): self.n = n
        def reindex(self, f): return ("renumbered", self.n, [f(v) for v in (a, b, c)])
    for how in ("mapping", "function", "none"):
        for copy in (False, True, None):
            for k in range(4):
                made = []
                class Pat:
                    def __init__(self, input_nodes=None, cmds=None):
                        made.append(self); self.log = [("inputs", list(input_nodes or ()))]; self._Pattern__input_nodes, self._Pattern__seq, self._Pattern__output_nodes = object(), object(), object()
                        for q in cmds or (): self.add(q)
                    def add(self, q): self.log.append(("add", q))
                    def extend(self, *qs):
                        for q in qs: self.add(q) if not isinstance(q, (list, types.GeneratorType, map)) else [self.add(z) for z in q]
                    def reorder_output_nodes(self, o): self.log.append(("outputs", list(o)))
                class Me:
                    input_nodes, output_nodes = [a, b], [c, b]
                    _Pattern__input_nodes, _Pattern__seq, _Pattern__output_nodes, _Pattern__n_node = "i", "s", "o", 3
                    def __iter__(self): return iter([Cmd(j) for j in range(k)])
                    def node_mapping(self): return dict(ren)
                me = Me(); f = lambda v: ren.get(v, v); m = {"mapping": dict(ren), "function": f, "none": None}[how]
                want = [("inputs", [x, b])] + [("add", ("renumbered", j, [x, b, y])) for j in range(k)] + [("outputs", [y, b])]
                try:
                    r = rebind(Pattern.reindex, Pattern=Pat)(me, *(() if m is None else (m,)), **({} if copy is None else dict(copy=copy))); new = made[0]
                    ok = len(made) == 1 and new.log == want
                    keep = (me._Pattern__input_nodes, me._Pattern__seq, me._Pattern__output_nodes)
                    if copy: ok &= r is new and keep == ("i", "s", "o") and not vars(me)
                    else: ok &= r is me and keep == (new._Pattern__input_nodes, new._Pattern__seq, new._Pattern__output_nodes) and me._Pattern__n_node == 3
                except Exception: ok = False      # noqa: BLE001
                ob.structural(f"{how}, copy={copy}, {k} commands", ok)

@P.bounded("passes", [F + "single_qubit_domains", F + "remove_useless_domains", FP + "Pattern.remove_input_nodes", FP + "Pattern.infer_pauli_measurements", FP + "Pattern.blochify",
                      FP + "Pattern.to_bloch", FP + "Pattern.reindex", FP + "Pattern.node_mapping"], gen,
           "random runnable patterns, 1..7 nodes, up to 32 outcome assignments", quick=14, thorough=200)
def passes(case):
    seed, n, which = case
    r = random.Random(seed)
    p = G.pattern(r, n, ticks=.1, live=5, domains=.6)
    before = repr(p); snapshot = [repr(c) for c in p]
    relabel = None
    frame = True
    if which == "single":
        q = O.single_qubit_domains(p)
        assert all(len(d) <= 1 for d in domains(q)), "a domain with several nodes is left"
    elif which == "useless":
        q = O.remove_useless_domains(p)
        for c in q:
            if c.kind == CommandKind.M:
                assert not (c.measurement == Measurement.X and c.s_domain) and not (c.measurement == Measurement.Z and c.t_domain), f"useless domain on {c}"
    elif which == "inputs":
        q = p.copy(); q.remove_input_nodes()
        assert q.input_nodes == [] and q.output_nodes == p.output_nodes and q.nodes() == p.nodes() and q.n_node == p.n_node
        q.check_runnability()
        k = len(p.input_nodes)
        plus = np.full(2 ** k, 2 ** (-k / 2))
        for o in psim.outcomes_iter(psim.measured(p), 32, r):
            a, b = psim.branch(p, o)[0] @ plus, psim.branch(q, o)[0].ravel()
            assert M.phase_equal(a, b), f"branch {o}: {a} vs {b}"
        assert repr(p) == before
        return None
    elif which in ("infer", "bloch"):
        cp = r.random() < .5
        src = p if cp else p.copy()
        if which == "infer": q = src.infer_pauli_measurements(copy=cp)
        elif cp and r.random() < .5: q = src.to_bloch()
        else: q = src.blochify(copy=cp)
        assert (q is src) == (not cp)
        for c in q:
            if c.kind != CommandKind.M: continue
            if which == "bloch": assert isinstance(c.measurement, BlochMeasurement)
            elif isinstance(c.measurement, BlochMeasurement):
                assert abs(c.measurement.angle * 2 - round(c.measurement.angle * 2)) > 1e-9, f"Pauli angle left: {c}"
        assert [c.kind for c in q] == [c.kind for c in p]
    else:
        nodes = sorted(p.nodes())
        mode = r.randrange(3)
        if mode == 0:
            img = r.sample(range(4 * len(nodes) + 1), len(nodes)); mp = dict(zip(nodes, img)); arg = mp if r.random() < .5 else (lambda v: mp[v])
        elif mode == 1:
            # partial mapping, the rest unchanged
            sub = r.sample(nodes, r.randrange(len(nodes) + 1)); rest = [v for v in nodes if v not in sub]
            pool = [x for x in range(4 * len(nodes) + 1) if x not in rest]
            part = dict(zip(sub, r.sample(pool, len(sub)))); arg = part; mp = {v: part.get(v, v) for v in nodes}
        else:
            arg = None; mp = p.node_mapping()
            assert sorted(mp) == nodes and sorted(mp.values()) == list(range(len(nodes))), f"default renumbering {mp}"
        cp = r.random() < .5; src = p if cp else p.copy()
        q = src.reindex(arg, copy=cp)
        assert (q is src) == (not cp)
        assert q.input_nodes == [mp[v] for v in p.input_nodes] and q.output_nodes == [mp[v] for v in p.output_nodes] and q.nodes() == {mp[v] for v in nodes}
        relabel = lambda o: {mp[v]: x for v, x in o.items()}
    assert repr(p) == before and [repr(c) for c in p] == snapshot, "the original was modified"
    q.check_runnability()
    if relabel is None: assert q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes and psim.measured(q) == psim.measured(p)
    msg = psim.same_branches(p, q, relabel=relabel, limit=32, rng=r)
    if msg: return msg
    # working on the result does not reach the original
    q2 = q
    try:
        q2.shift_signals(method="mc"); q2.standardize()
    except NotImplementedError: pass
    if q2 is not p: assert repr(p) == before, "the result shares mutable state with the original"

def gen2(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 6))

@P.bounded("node_mapping", [FP + "Pattern.node_mapping"], gen2, "random partial mappings, start, avoids and preserves", quick=4, thorough=30)
def nodemap(case):
    seed, n = case
    r = random.Random(seed)
    p = G.pattern(r, n, edges=.2)
    nodes = sorted(p.nodes())
    pre = {v: r.randrange(0, 12) for v in nodes if r.random() < .3} if r.random() < .6 else None
    avoids = [r.randrange(0, 10) for _ in range(r.randrange(4))] if r.random() < .5 else None
    pres = [v for v in nodes if v not in (pre or {}) and r.random() < .3] if r.random() < .5 else None
    start = r.randrange(0, 6)
    if r.random() < .1:
        bad = {max(nodes) + 3: 0}
        try: p.node_mapping(bad)
        except ValueError: return None
        return "mapping of an unknown node accepted"
    inj = pre is None or len(set(pre.values())) == len(pre)
    try: m = p.node_mapping(pre, start=start, avoids=avoids, preserves=pres)
    except ValueError:
        return "injective mapping refused" if inj else None
    if not inj: return "non-injective mapping accepted"
    assert set(m) == set(nodes) - set(pres or ()), f"domain {sorted(m)}"
    assert all(m[k] == v for k, v in (pre or {}).items()), "the given entries are not kept"
    fresh = {k: v for k, v in m.items() if k not in (pre or {})}
    assert len(set(m.values())) == len(m), f"not injective: {m}"
    assert not set(fresh.values()) & (set(avoids or ()) | set(pres or ())), f"avoided index used: {m}"
    taken = set(avoids or ()) | set(pres or ()) | set((pre or {}).values())
    cand = start; want = {}
    for v in nodes:
        if v in fresh:
            while cand in taken: cand += 1
            want[v] = cand; cand += 1
    assert fresh == want, f"fresh indices {fresh}, in increasing order from {start} skipping used ones: {want}"

def gen3(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 6))

@P.bounded("local Clifford removal", [F + "remove_local_clifford_commands", FP + "Pattern.remove_local_clifford_commands"], gen3,
           "random runnable patterns, 1..5 nodes with Clifford commands; all branches of original x random branches of the inserted measurements", quick=10, thorough=150)
def lc(case):
    seed, n = case
    r = random.Random(seed)
    p = G.pattern(r, n, cliffords=.25, live=4, n_out=None)
    if sum(c.kind == CommandKind.C for c in p) > 5: return "skip"
    before = repr(p)
    cp = r.random() < .5; src = p if cp else p.copy()
    q = src.remove_local_clifford_commands(copy=cp) if r.random() < .7 or not cp else O.remove_local_clifford_commands(src)
    if not cp: assert q is src
    assert repr(p) == before, "the original was modified"
    assert not any(c.kind == CommandKind.C for c in q), "a Clifford command is left"
    assert len(q.output_nodes) == len(p.output_nodes) and q.input_nodes == p.input_nodes and q.n_node == len(q.nodes())
    q.check_runnability()
    # correspondence of measurements: the original's measurements appear in order, other measurements are inserted fragments
    mp, mq = [c for c in p if c.kind == CommandKind.M], [c for c in q if c.kind == CommandKind.M]
    ncl = {}
    pos = []; j = 0
    # each C (not the identity) on node v inserts the measurements of its fragment
    from graphix.clifford import Clifford as Cl
    seqn = []
    for c in p:
        if c.kind == CommandKind.C and c.clifford != Cl.I:
            seqn += [None] * sum(x.kind == CommandKind.M for x in c.clifford.to_opengraph().to_pattern())
        elif c.kind == CommandKind.M: seqn.append(c.node)
    assert len(seqn) == len(mq), "number of inserted measurements"
    pair = [(v, c.node) for v, c in zip(seqn, mq)]
    extra = [w for v, w in pair if v is None]
    for o in psim.outcomes_iter([c.node for c in mp], 16, r):
        oq = {w: (o[v] if v is not None else r.randrange(2)) for v, w in pair}
        a, b = psim.branch(p, o)[0], psim.branch(q, oq)[0] * 2 ** (len(extra) / 2)
        assert M.phase_equal(a, b), f"branch {o} (inserted outcomes {[oq[w] for w in extra]}): {np.round(a, 3).tolist()} vs {np.round(b, 3).tolist()}"

# ---- the local-Clifford pass and the single-domain pass, one command at a time
class Tok:
    """An arbitrary node of the pattern (nothing is known about it but its identity)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

class Off:
    """m + k: m is the (unknown) largest index in use when the command is reached, k a number."""
    def __init__(self, k): self.k = k
    def __add__(self, o):
        if isinstance(o, Off) or not isinstance(o, int): raise Unfit("arithmetic on node indices outside the contract")
        return Off(self.k + o)
    __radd__ = __add__
    def __eq__(self, o): return isinstance(o, Off) and o.k == self.k
    def __hash__(self): return hash(("off", self.k))
    def __repr__(self): return f"m+{self.k}"

class Emitted:
    """Recorder standing for the pattern under construction."""
    def __init__(self): self.cmds = []
    def add(self, c): self.cmds.append(c)
    def extend(self, *cs):
        for c in cs:
            self.cmds.extend([c] if hasattr(c, "kind") else list(c))

def same_command(a, b):
    if a.kind != b.kind: return False
    if a.kind == CommandKind.E: return a.nodes == b.nodes
    if a.kind == CommandKind.T: return True
    fields = {CommandKind.N: "node state", CommandKind.M: "node measurement s_domain t_domain", CommandKind.C: "node clifford"}.get(a.kind, "node domain").split()
    return all(getattr(a, f) == getattr(b, f) for f in fields)

@P.proof("local Clifford removal, one command", [F + "remove_local_clifford_commands", "graphix/clifford.py:Clifford.to_opengraph"],
         backend="loop contract: opaque nodes, symbolic largest index")
def _(ob):
    from gv.loops import step
    run = step(O.remove_local_clifford_commands, 0)
    def go(cmd, mapping):
        e, mp = Emitted(), dict(mapping)
        d = run(cmd, new_pattern=e, mapping=mp, max_node=Off(0))
        if d["__exit__"] not in ("next", "break") and "__return__" in d: raise Unfit("the loop returns")
        return e.cmds, d["mapping"], d["max_node"]
    for name, (mapped) in (("first Clifford on the node", False), ("node already renamed", True)):
        v, w, old, old2 = Tok("v"), Tok("w"), Tok("v'"), Tok("w'")
        base = {w: old2, **({v: old} if mapped else {})}
        cur = old if mapped else v
        for c in Clifford:
            cmds, mp, mx = go(C(v, c), base)
            if c == Clifford.I:
                need_ok = not cmds and mp.get(v, v) is cur and isinstance(mx, Off) and mx.k == 0
                if not need_ok and not cmds: raise Unfit("identity renames a node")
                ob.check(f"{name}: identity leaves everything as it is", need_ok); continue
            if not isinstance(mx, Off): raise Unfit("largest index outside the contract")
            out = mp.get(v, v)
            toks = {x for k in cmds for x in (k.nodes if k.kind == CommandKind.E else (k.node,)) if isinstance(x, Tok)}
            ob.check(f"{c} {name}: of the nodes already in use, only the current carrier is acted on", toks <= {cur})
            if not toks <= {cur}: continue
            ren = lambda x: 0 if x is cur else x.k if isinstance(x, Off) else (_ for _ in ()).throw(Unfit(f"unexpected node {x!r}"))
            frag = [k.reindex(ren) for k in cmds]
            used = {x for k in frag for x in (k.nodes if k.kind == CommandKind.E else (k.node,))}
            ob.check(f"{c} {name}: no Clifford command is emitted", not any(k.kind == CommandKind.C for k in frag))
            ob.check(f"{c} {name}: nodes other than the carrier are above every node in use, and at most the new largest index",
                     all(x == 0 or 1 <= x <= mx.k for x in used))
            ob.check(f"{c} {name}: other renamings untouched", {k: t for k, t in mp.items() if k is not v} == {w: old2})
            meas = psim.measured(frag)
            bad = []
            for o in itertools.product((0, 1), repeat=len(meas)):
                sim = psim.Sim([0])
                try:
                    psim.run_commands(sim, frag, dict(zip(meas, o)))
                    lin = sim.out([ren(out)])
                except (AssertionError, ValueError, KeyError) as exc:
                    bad.append(f"{o}: {exc}"); continue
                if not M.prop_equal(lin, psim.clifford_matrix(c)): bad.append(str(o))
            ob.check(f"{c} {name}: from the old carrier to the new one, every branch applies the gate", not bad)
    st, m = BasicStates.MINUS_I, Measurement.YZ(0.3)
    v, w, x, r1, r2 = Tok("v"), Tok("w"), Tok("x"), Tok("v'"), Tok("w'")
    for mp0 in ({}, {v: r1}, {v: r1, w: r2}, {x: r1}):
        f = lambda n: mp0.get(n, n)
        for cmd, want in ((N(v, st), N(f(v), st)), (E((v, w)), E((f(v), f(w)))), (Meas(v, m, {w}, {x, w}), Meas(f(v), m, {f(w)}, {f(x), f(w)})),
                          (X(v, {w, x}), X(f(v), {f(w), f(x)})), (Z(v, {x}), Z(f(v), {f(x)})), (S(v, {w}), S(f(v), {f(w)})), (T(), T())):
            cmds, mp, mx = go(cmd, mp0)
            ob.check(f"{cmd.kind.name} with {len(mp0)} renamed nodes {sorted(map(repr, mp0))}: the command itself, on the current carriers",
                     len(cmds) == 1 and same_command(cmds[0], want) and mp == mp0 and mx == Off(0))

@P.proof("single-qubit domains, one command", [F + "single_qubit_domains"], backend="loop contracts: opaque nodes, domains as GF(2) forms")
def _(ob):
    from gv.loops import step
    from gv.extract import nested
    run = step(O.single_qubit_domains, 0)
    def go(cmd):
        e = Emitted()
        d = run(cmd, new_pattern=e)
        if "__return__" in d: raise Unfit("the loop returns")
        return e.cmds
    st = BasicStates.MINUS_I
    toks = [Tok(f"d{i}") for i in range(4)]; v, w = Tok("v"), Tok("w")
    sets = [set(toks[:k]) for k in range(4)] + [{toks[3]}, set(toks[1:])]
    xor = lambda ds: __import__("functools").reduce(lambda a, b: a ^ frozenset(b), ds, frozenset())
    one = lambda c: all(len(getattr(c, f, ())) <= 1 for f in ("domain", "s_domain", "t_domain"))
    for cmd in (N(v, st), E((v, w)), C(v, Clifford(9)), T()):
        got = go(cmd)
        ob.check(f"{cmd.kind.name}: kept as it is", len(got) == 1 and same_command(got[0], cmd))
    for k in (X, Z):
        for d in sets:
            got = go(k(v, set(d)))
            ob.check(f"{k.__name__} with domain {sorted(map(repr, d))}: the same Pauli with the same total parity, one node at a time",
                     all(c.kind == k(v, d).kind and c.node is v and one(c) for c in got) and xor([c.domain for c in got]) == frozenset(d))
    for m in (Measurement.YZ(0.3), PauliMeasurement.Y):
        for s in sets:
            for t in sets:
                cmd = Meas(v, m, set(s), set(t)); got = go(cmd)
                pre, last = got[:-1], got[-1] if got else None
                ok = last is not None and last.kind == CommandKind.M and last.node is v and last.measurement == m and one(last)
                ok = ok and all(c.kind in (CommandKind.X, CommandKind.Z) and c.node is v and one(c) for c in pre)
                ok = ok and xor([c.domain for c in pre if c.kind == CommandKind.X] + [last.s_domain]) == frozenset(s)
                ok = ok and xor([c.domain for c in pre if c.kind == CommandKind.Z] + [last.t_domain]) == frozenset(t)
                ob.check(f"measurement {m} with domains {sorted(map(repr, s))},{sorted(map(repr, t))}: X parity and Z parity before the measurement as before, and the command given is not changed",
                         ok and cmd.s_domain == s and cmd.t_domain == t)
    e = Emitted()
    dd = nested(O.single_qubit_domains, "decompose_domain", new_pattern=e)
    it = step(dd, 0, new_pattern=e)
    for k in (X, Z):
        e.cmds.clear()
        d = it(w, cmd=k, node=v, domain=None)
        ob.check(f"splitting a domain of any size, one element: {k.__name__} on the node with that element", d["__exit__"] == "next" and e.cmds == [k(v, {w})])


@P.proof("passes: composition", [FP + "Pattern." + m for m in ("infer_pauli_measurements", "blochify", "to_bloch", "remove_input_nodes", "remove_local_clifford_commands")], "terms over the contracts of the callees")
def wrappers_unit(ob):
    """apply, Measurement.to_bloch and to_pauli_or_bloch and the pass on patterns are used through their contracts."""
    from gv.chains import Ch, Me
    from gv.extract import rebind
    class App(Me):
        def __init__(self, **k):
            super().__init__(**k); self.__dict__["calls"] = []
        def apply(self, f, copy=False):
            self.calls.append((f(Ch("measurement")), copy)); return Ch("applied")
    for copy in (False, True):
        for kw, args in (({}, (1e-9, 0.0)), (dict(rel_tol=.5), (.5, 0.0)), (dict(abs_tol=.25), (1e-9, .25)), (dict(rel_tol=.5, abs_tol=.25), (.5, .25))):
            me = App(); r = rebind(Pattern.infer_pauli_measurements)(me, copy=copy, **kw)
            ob.structural(f"infer {kw} copy={copy}: every measurement within these tolerances", r == Ch("applied") and me.calls in ([(Ch("measurement").to_pauli_or_bloch(*args), copy)], [(Ch("measurement").to_pauli_or_bloch(rel_tol=args[0], abs_tol=args[1]), copy)]) and not me.gv_set)
        me = App(); r = rebind(Pattern.blochify)(me, copy=copy)
        ob.structural(f"blochify copy={copy}: every measurement as a Bloch measurement", r == Ch("applied") and me.calls == [(Ch("measurement").to_bloch(), copy)] and not me.gv_set)
        me = Me(); new = Ch("optimization").remove_local_clifford_commands(me); r = rebind(Pattern.remove_local_clifford_commands, optimization=Ch("optimization"))(me, copy=copy)
        if copy: ob.structural("local Cliffords, copy: the new pattern, nothing changed", r == new and not me.gv_set)
        else: ob.structural("local Cliffords, in place: all parts of the new pattern but the inputs, which are the same", r is me and me.gv_set == {a: getattr(new, a) for a in ("_Pattern__seq", "_Pattern__output_nodes", "_Pattern__n_node")})
    me = Me(); r = rebind(Pattern.to_bloch)(me)
    ob.structural("to_bloch: a copy, as Bloch measurements", r == Ch(("self",)).blochify(copy=True) and not me.gv_set)
    toks = [object(), object(), object()]
    for k in range(4):
        for cmds in ([], [object()], [object(), object()]):
            seq = list(cmds); ins = toks[:k]
            me = Me(_Pattern__seq=seq, _Pattern__input_nodes=list(ins), input_nodes=list(ins)); rebind(Pattern.remove_input_nodes)(me)
            out = me._Pattern__seq
            ok = len(out) == k + len(cmds) and all(c.kind == CommandKind.N and c.node is t and c.state == BasicStates.PLUS for c, t in zip(out, ins)) and all(x is y for x, y in zip(out[k:], cmds))
            ob.structural(f"{k} inputs, {len(cmds)} commands: the inputs are prepared first, in plus states", ok)
            ob.structural(f"{k} inputs, {len(cmds)} commands: no inputs are left, nothing else changes", me.gv_set.get("_Pattern__input_nodes") == [] and set(me.gv_set) <= {"_Pattern__seq", "_Pattern__input_nodes"})
