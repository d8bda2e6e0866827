from __future__ import annotations
import copy as copymod, itertools, random
import numpy as np
from gv import boot, mats as M, psim, gen as G, exact  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.symset import DSet, form, parity, compatible
from gv import loops
from graphix.clifford import Clifford
from graphix.command import C, CommandKind, E, M as Meas, N, S, T, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.pattern import Pattern
from graphix import optimization as O
from graphix.optimization import StandardizedPattern
from graphix.states import BasicStates

F = "graphix/optimization.py:"
P = Prop("C06", "proof",
    "Loop contract of StandardizedPattern.from_pattern, with the invariant `commands so far = N,E,M parts followed by the pending "
    "operator C_n X^x_n Z^z_n on every node n`: the real loop body is run on every kind of command from an arbitrary state (any of the "
    "24 pending gates or none, arbitrary parity sets) and the invariant is shown to be preserved as a matrix identity for all parities; "
    "untouched nodes are framed.  The emitted order, idempotence and the branch maps of whole patterns are checked on random patterns "
    "(bounded).",
    ["Clifford algebra through its contract (C01), Clifford action on measurements through C03",
     "patterns contain no explicit signal commands (execution refuses them)"],
    ["semantics of patterns in gv/psim.py"])

CL = {c: psim.clifford_matrix(c) for c in Clifford}
def pend(c, x, z):
    m = CL[c] if c is not None else M.I2
    if x: m = m @ M.X
    if z: m = m @ M.Z
    return m

def fresh(c=None, x=None, z=None):
    """State dicts for nodes 3,4 plus an untouched node 9."""
    return dict(n_list=[], e_set=set(), m_list=[], z_dict={9: DSet({"z9"})}, x_dict={9: DSet({"x9"})}, c_dict={9: Clifford(7)})

def put(st, n, c, x, z, tag):
    if c is not None: st["c_dict"][n] = c
    if x: st["x_dict"][n] = DSet({"x" + tag})
    if z: st["z_dict"][n] = DSet({"z" + tag})

def framed(st):
    return (st["c_dict"].get(9) == Clifford(7) and form(st["z_dict"].get(9, set())) == frozenset({"z9"}) and form(st["x_dict"].get(9, set())) == frozenset({"x9"})
            and set(st["c_dict"]) <= {3, 4, 9} and set(st["x_dict"]) <= {3, 4, 9} and set(st["z_dict"]) <= {3, 4, 9})

def pend_of(st, n, vals):
    return pend(st["c_dict"].get(n), parity(st["x_dict"].get(n, set()), vals), parity(st["z_dict"].get(n, set()), vals))

def assignments(gens, present=None):
    """All parities of the generators (those of absent sets are 0)."""
    gens = sorted(gens, key=lambda g: (g[1:], g[0]))
    for bits in itertools.product(*((0, 1) if present is None or present[i] else (0,) for i in range(len(gens)))):
        yield dict(zip(gens, bits))

def dset(x=()):
    if isinstance(x, DSet): return x.copy()
    return set(x)

def runner():
    f = need(StandardizedPattern, "from_pattern")
    run = loops.step(f, 0, set=dset)
    def go(cmd, st):
        d = run(cmd, cls=StandardizedPattern, pattern=None, **st)
        if d["__exit__"] != "next": raise Unfit(f"loop exit {d['__exit__']}")
        return {k: d[k] for k in st}
    return go

CS = [None, *Clifford]

@P.proof("X, Z and C commands", [F + "StandardizedPattern.from_pattern", F + "_add_correction_domain"], backend="loop contract, arbitrary sets as GF(2) forms")
def _(ob):
    go = runner()
    for c in CS:
        for x, z in itertools.product((False, True), repeat=2):
            for k, mat in ((X, M.X), (Z, M.Z)):
                ok = True
                for _ in exact.Choices():
                    DSet.empty = []; DSet.nonempty = set()
                    st = fresh(); put(st, 3, c, x, z, "3")
                    cmd = k(3, DSet({"d"}))
                    s2 = go(cmd, copymod.deepcopy(st))
                    ok = ok and framed(s2) and form(cmd.domain) == frozenset({"d"}) and not s2["m_list"] and not s2["n_list"] and not s2["e_set"]
                    for v in assignments({"d", "x3", "z3"}):
                        if not compatible(v): continue
                        ok = ok and M.prop_equal(np.linalg.matrix_power(mat, v["d"]) @ pend_of(st, 3, v), pend_of(s2, 3, v))
                    # no aliasing between the command and the state
                    for dd in (s2["x_dict"], s2["z_dict"]):
                        ok = ok and all(s is not cmd.domain for s in dd.values())
                ob.check(f"{k.__name__} onto pending {c.value if c else None}, x {x}, z {z}", ok)
            ok = True
            for c2 in Clifford:
                st = fresh(); put(st, 3, c, x, z, "3")
                DSet.empty = []
                s2 = go(C(3, c2), copymod.deepcopy(st))
                ok = ok and framed(s2)
                for v in assignments({"x3", "z3"}):
                    ok = ok and M.prop_equal(CL[c2] @ pend_of(st, 3, v), pend_of(s2, 3, v))
            ob.check(f"C onto pending {c.value if c else None}, x {x}, z {z}, for the 24 gates", ok)

@P.proof("E command", [F + "StandardizedPattern.from_pattern", F + "_commute_clifford", F + "_add_correction_domain"], backend="loop contract, arbitrary sets as GF(2) forms")
def _(ob):
    go = runner()
    def local(c):
        """CZ (C x 1) CZ is a product of one-qubit operators."""
        m = (M.CZ @ np.kron(CL[c] if c is not None else M.I2, M.I2) @ M.CZ).reshape(2, 2, 2, 2).transpose(0, 2, 1, 3).reshape(4, 4)
        return np.linalg.matrix_rank(m, 1e-9) == 1
    loc = {c: local(c) for c in CS}
    ob.check("8 of the gates commute with CZ up to a local gate", sum(loc[c] for c in Clifford) == 8)
    for ci in CS:
        ok = True; refused = True
        for cj in CS:
            for pat in itertools.product((False, True), repeat=4):
                if not (loc[ci] and loc[cj]) and any(pat[2:]): continue
                for present in (False, True) if not any(pat) else (False,):
                  for _ in exact.Choices():
                    DSet.empty = []; DSet.nonempty = set()
                    st = fresh(); put(st, 3, ci, pat[0], pat[1], "3"); put(st, 4, cj, pat[2], pat[3], "4")
                    st["e_set"] = {frozenset({4, 9})} | ({frozenset({3, 4})} if present else set())
                    try:
                        s2 = go(E((3, 4)), copymod.deepcopy(st))
                    except NotImplementedError:
                        refused = refused and not (loc[ci] and loc[cj])
                        continue
                    ok = ok and framed(s2) and s2["e_set"] == ({frozenset({4, 9})} | (set() if present else {frozenset({3, 4})}))
                    for v in assignments({"x3", "z3", "x4", "z4"}, pat):
                        if not compatible(v): continue
                        a = M.CZ @ np.kron(pend_of(st, 3, v), pend_of(st, 4, v))
                        b = np.kron(pend_of(s2, 3, v), pend_of(s2, 4, v)) @ M.CZ
                        ok = ok and M.prop_equal(a, b)
        ob.check(f"pending gate {ci.value if ci else None} with every other gate, all parities", ok)
        ob.check(f"pending gate {ci.value if ci else None}: refused only if no local commutation exists", refused)

@P.proof("M and N commands", [F + "StandardizedPattern.from_pattern", "graphix/command.py:M.clifford"], backend="loop contract, arbitrary sets as GF(2) forms")
def _(ob):
    go = runner()
    st = fresh(); n = N(4, BasicStates.MINUS_I)
    s2 = go(n, copymod.deepcopy(st))
    ob.check("N is kept with its state", s2["n_list"] == [n] and framed(s2) and not s2["m_list"] and 4 not in s2["c_dict"])
    ms = [*PauliMeasurement, *(BlochMeasurement(a, p) for p in Plane for a in (0.3, 1.0, 1.7))]
    for c in CS:
        ok = True
        for m in ms:
            for x, z in itertools.product((False, True), repeat=2):
                for _ in exact.Choices():
                    DSet.empty = []
                    st = fresh(); put(st, 3, c, x, z, "3")
                    prev = Meas(8, Measurement.X); st["m_list"] = [prev]
                    cmd = Meas(3, m, DSet({"s"}), DSet({"t"}))
                    s2 = go(cmd, copymod.deepcopy(st))
                    ok = ok and framed(s2) and all(3 not in s2[k] for k in ("c_dict", "x_dict", "z_dict")) and len(s2["m_list"]) == 2 and s2["m_list"][0] == prev
                    ok = ok and form(cmd.s_domain) == frozenset({"s"}) and form(cmd.t_domain) == frozenset({"t"}) and cmd.measurement == m
                    new = s2["m_list"][1]
                    ok = ok and new.node == 3
                    for v in assignments({"s", "t", "x3", "z3"}):
                        if not compatible(v): continue
                        for o in (0, 1):
                            a = psim.bra(m, o) @ np.linalg.matrix_power(M.Z, v["t"]) @ np.linalg.matrix_power(M.X, v["s"]) @ pend_of(st, 3, v)
                            b = psim.bra(new.measurement, o) @ np.linalg.matrix_power(M.Z, parity(new.t_domain, v)) @ np.linalg.matrix_power(M.X, parity(new.s_domain, v))
                            ok = ok and M.prop_equal(a, b)
        ob.check(f"measurement absorbs pending gate {c.value if c else None} and corrections, all descriptions and parities", ok)

def gen(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 9), lambda r: r.choice([0.0, 0.15, 0.3]))

import re
KINDS = "NEMZXCST"
def kinds(p): return "".join(c.kind.name for c in p)
def is_standard_spec(p, strict):
    return re.fullmatch("N*E*M*[XZ]*C*" if strict else "N*E*M*[XZC]*", kinds(p)) is not None

LOCAL = {c for c in Clifford if np.linalg.matrix_rank((M.CZ @ np.kron(CL[c], M.I2) @ M.CZ).reshape(2, 2, 2, 2).transpose(0, 2, 1, 3).reshape(4, 4), 1e-9) == 1}

def may_refuse(p):
    pendg = {}
    for c in p:
        if c.kind == CommandKind.C:
            m = CL[c.clifford] @ pendg.get(c.node, M.I2); pendg[c.node] = m
        elif c.kind == CommandKind.E:
            for n in c.nodes:
                if n in pendg and not any(M.prop_equal(pendg[n], CL[l]) for l in LOCAL): return True
        elif c.kind == CommandKind.M:
            pendg.pop(c.node, None)
    return False

@P.bounded("standard form", [F + "StandardizedPattern.from_pattern", F + "StandardizedPattern.to_pattern", F + "standardize", "graphix/pattern.py:Pattern.standardize", "graphix/pattern.py:Pattern.is_standard"], gen,
           "random runnable patterns, 1..8 nodes (<=5 live), all command kinds incl. repeated edges; up to 32 outcome assignments", quick=14, thorough=240)
def standard(case):
    seed, n, cl = case
    r = random.Random(seed)
    p = G.pattern(r, n, ticks=0.1, live=5, cliffords=cl)
    if r.random() < 0.2 and n > 2:
        # a repeated entanglement
        seq = list(p); es = [i for i, c in enumerate(seq) if c.kind == CommandKind.E]
        if es:
            i = r.choice(es); seq.insert(i, seq[i]); p = Pattern(input_nodes=p.input_nodes, cmds=seq, output_nodes=p.output_nodes)
    before = repr(p)
    how = r.randrange(3)
    try:
        if how == 0: q = O.standardize(p)
        elif how == 1:
            q = p.copy(); q.standardize()
        else: q = StandardizedPattern.from_pattern(p).to_pattern()
    except NotImplementedError:
        return None if may_refuse(p) else "refused although every pending gate commutes with the entanglements"
    assert repr(p) == before, "the original pattern was modified"
    assert is_standard_spec(q, True), f"not in standard form: {kinds(q)}"
    assert q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes
    assert q.nodes() == p.nodes() and {c.node: c.state for c in q if c.kind == CommandKind.N} == {c.node: c.state for c in p if c.kind == CommandKind.N}
    assert sorted(psim.measured(q)) == sorted(psim.measured(p))
    cs = [c.node for c in q if c.kind == CommandKind.C]
    assert len(cs) == len(set(cs)) and set(cs) <= set(q.output_nodes), f"Clifford commands {cs}"
    q.check_runnability()
    msg = psim.same_branches(p, q, limit=32, rng=r)
    if msg: return msg
    q2 = q.copy(); q2.standardize()
    # corrections on an empty set of outcomes are no corrections
    key = lambda w: [("E", *sorted(c.nodes)) if c.kind == CommandKind.E else c for c in w if not (c.kind in (CommandKind.X, CommandKind.Z) and not c.domain)]
    def norm(w):
        k = key(w)
        return sorted(map(repr, (c for c in k if isinstance(c, tuple)))), [c for c in k if not isinstance(c, tuple)]
    assert norm(q2) == norm(q), f"standardizing again changes the pattern: {list(q)} -> {list(q2)}"

def gen2(rng, tier):
    yield from G.seeds(rng)

@P.bounded("is_standard", ["graphix/pattern.py:Pattern.is_standard"], gen2, "random command kind sequences up to 8 commands", quick=4, thorough=30)
def isstd(case):
    r = random.Random(case[0])
    n = 4; seq = []
    mode = r.random()
    ks = [r.choice("NEMXZCT" if mode < 0.3 else "NEMXZC") for _ in range(r.randrange(0, 8))]
    if mode > 0.5: ks.sort(key=lambda k: "NEMXZCT".index(k) if k not in "XZ" else 3)
    if mode > 0.8 and len(ks) > 1:
        i = r.randrange(len(ks) - 1); ks[i], ks[i + 1] = ks[i + 1], ks[i]
    mk = dict(N=lambda: N(1), E=lambda: E((0, 1)), M=lambda: Meas(0, Measurement.X), X=lambda: X(0, set()), Z=lambda: Z(0, set()), C=lambda: C(0, Clifford.H), T=T)
    p = Pattern(input_nodes=[0], cmds=[mk[k]() for k in ks])
    for strict in (False, True):
        got = p.is_standard(strict=strict)
        if "T" in ks: continue
        assert got == is_standard_spec(p, strict), f"{''.join(ks)} strict={strict}: {got}"

@P.proof("is_standard, every sequence", ["graphix/pattern.py:Pattern.is_standard"], "exhaustive product of the control states of the code with the automaton of the standard form")
def isstd_unit(ob):
    """The function reads the kinds of the commands one by one: all its reachable control states (position in the code and local variables) are
    run against the automaton of N* E* M* [XZ]* C* (strict) or N* E* M* [XZC]*, which decides sequences of every length."""
    from gv import scan
    class Item:
        def __init__(self, k): self.kind, self.gv_canon = k, k.name
    alphabet = {k: Item(CommandKind[k]) for k in KINDS}
    stages = {True: ["N", "E", "M", "XZ", "C"], False: ["N", "E", "M", "XZC"]}
    mk = dict(N=lambda: N(1), E=lambda: E((0, 1)), M=lambda: Meas(0, Measurement.X), X=lambda: X(0, set()), Z=lambda: Z(0, set()), C=lambda: C(0, Clifford.H), T=T, S=lambda: S(0, set()))
    for strict in (False, True):
        def step(q, a):      # the earliest stage that can still be meant
            if q is None: return None
            return next((i for i in range(q, len(stages[strict])) if a in stages[strict][i]), None)
        class Seq:
            def __init__(self, f): self.f = f
            def __iter__(self): return self.f
        from gv.extract import rebind
        code = rebind(Pattern.is_standard, next=scan.following)
        def call(f): return code(Seq(f), strict=strict)
        Seq.gv_canon = "pattern"
        def judged(it):
            for w, got, want in it:
                ok = got is want
                if not ok and not {"S", "T"} & set(w):      # replayed on a real pattern; ticks and signals are outside the statement
                    p = Pattern(input_nodes=[0], cmds=[mk[k]() for k in w])
                    if p.is_standard(strict=strict) == is_standard_spec(p, strict): raise Unfit("the state of the code does not determine its future")
                elif not ok: continue
                yield "".join(w) or "empty", ok
        ob.total(f"strict={strict}: true exactly for the standard form", judged(scan.explore(call, alphabet, 0, step, lambda q: q is not None)))

class Lab:
    """An arbitrary node."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

@P.proof("commands of the standard form", [F + "StandardizedPattern.to_pattern"], backend="opaque nodes, arbitrary domains; up to 2 of each part")
def emit_unit(ob):
    import types
    from gv.extract import raw
    u, v, w, x, y = (Lab(s) for s in "uvwxy")
    m1, m2 = Meas(u, Measurement.YZ(.3), {v}, {w}), Meas(v, Measurement.XY(.1), set(), {u})
    CH = {CommandKind.N: 0, CommandKind.E: 1, CommandKind.M: 2, CommandKind.X: 3, CommandKind.Z: 3, CommandKind.C: 4}
    for nn, ne, nm, nz, nx, nc in itertools.product(range(3), repeat=6):
        ns = [N(w), N(x, BasicStates.MINUS_I)][:nn]; es = [frozenset((u, w)), frozenset((w, x))][:ne]; ms = [m1, m2][:nm]
        zd = dict([(w, frozenset({u, v})), (x, frozenset({v}))][:nz]); xd = dict([(x, frozenset({u})), (w, frozenset())][:nx]); cd = dict([(w, Clifford.H), (x, Clifford(9))][:nc])
        ins = [u, v] if nn == 2 else [u, v, w, x][:4 - nn]
        if set(ins) & {c.node for c in ns}: ins = [t for t in (u, v, w, x) if t not in {c.node for c in ns}]
        left = [t for t in (x, w, v, u) if t not in {c.node for c in ms}]
        me = types.SimpleNamespace(input_nodes=ins, output_nodes=left, n_list=tuple(ns), e_set=frozenset(es), m_list=tuple(ms), z_dict=zd, x_dict=xd, c_dict=cd)
        p = raw(StandardizedPattern.to_pattern)(me); seq = list(p)
        ks = [CH.get(c.kind, 9) for c in seq]
        ok = ks == sorted(ks) and list(p.input_nodes) == ins and list(p.output_nodes) == left
        ok = ok and [c for c in seq if c.kind == CommandKind.N] == ns and [c for c in seq if c.kind == CommandKind.M] == ms
        got = [frozenset(c.nodes) for c in seq if c.kind == CommandKind.E]
        ok = ok and len(got) == len(es) and set(got) == set(es)
        for k, d in ((CommandKind.Z, zd), (CommandKind.X, xd)):
            cs = [c for c in seq if c.kind == k and c.domain]
            ok = ok and len({c.node for c in cs}) == len(cs) and {c.node: frozenset(c.domain) for c in cs} == {a: b for a, b in d.items() if b}
            ok = ok and all(not any(c.domain is b for b in d.values()) for c in cs if isinstance(c.domain, set))
        cs = [c for c in seq if c.kind == CommandKind.C]
        ok = ok and len(cs) == len(cd) and {c.node: c.clifford for c in cs} == cd
        ob.check(f"{nn} N, {ne} E, {nm} M, {nz} Z, {nx} X, {nc} C: each exactly once, preparations, edges, measurements, corrections, Cliffords in this order; inputs and outputs in order", ok)


@P.proof("standardization: composition", [F + "standardize", "graphix/pattern.py:Pattern.standardize"], "terms over the contracts of the callees")
def composition_unit(ob):
    from gv.chains import Ch, Me
    from gv.extract import rebind
    me = Me(); want = Ch("SP").from_pattern(me).to_pattern()
    ob.structural("standardize: the pattern of the standard form", rebind(need(O, "standardize"), StandardizedPattern=Ch("SP"))(me) == want and not me.gv_set)
    rebind(Pattern.standardize, optimization=Ch("optimization"))(me)
    ob.structural("Pattern.standardize: the commands of the standardized pattern", me.gv_set == {"_Pattern__seq": getattr(Ch("optimization").standardize(me), "_Pattern__seq")})
