from __future__ import annotations
import itertools, random
import numpy as np
from gv import boot, mats as M, psim, gen as G  # noqa: F401
from gv.core import Prop, need, Unfit
from gv.symset import SymSet
from gv import loops
from graphix import command, pattern as pmod
from graphix.command import C, CommandKind, E, M as Meas, N, S, T, X, Z
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.pattern import Pattern, shift_outcomes
from graphix.optimization import StandardizedPattern

F = "graphix/pattern.py:"
P = Prop("C05", "proof",
    "The inductive step of signal shifting is proved on the real loop body for arbitrary parity sets, arbitrary previously shifted "
    "signals and every plane/Pauli axis: the parity of every rewritten domain over the new outcomes equals the parity of the original "
    "domain over the original outcomes, and the projector on the relabelled outcome is unchanged.  The commutation rules of the "
    "measurement-calculus method are proved for arbitrary sets.  One step of signal extraction, the choice of commutation rule at every step and the relabelling function are proved on the real bodies.  Whole runs are exercised on "
    "random patterns in every branch (bounded).",
    ["outcome relabelling: original outcome = new outcome xor parity of the returned signal over new outcomes (direct method), "
     "new outcome = original outcome xor parity over original outcomes (mc method)"],
    ["semantics of patterns in gv/psim.py"])

def basis(m, s, t, o):
    x = psim.bra(m, o)
    if t: x = x * np.array([1, -1])
    if s: x = x[::-1]
    return x

PLANES = [*((f"{p.name} {a}", BlochMeasurement(a, p)) for p in Plane for a in (0.0, 0.3, 0.5, 1.7)), *((str(m), m) for m in PauliMeasurement)]

def same_projector(a, b): return M.prop_equal(a, b)

@P.proof("extract_signal", [F + "extract_signal"], backend="arbitrary sets as GF(2) forms")
def _(ob):
    for plane in Plane:
        s, t = SymSet({"s"}), SymSet({"t"})
        r = pmod.extract_signal(plane, s, t)
        f = lambda d, ps, pt: (ps * ("s" in SymSet._of(d)) + pt * ("t" in SymSet._of(d))) % 2
        for a in (0.3, 0.8, 1.9):
            m = BlochMeasurement(a, plane)
            for ps, pt, o in itertools.product((0, 1), repeat=3):
                o2 = o ^ f(r.signal, ps, pt)
                ob.check(f"{plane.name} angle {a}: outcome {o} with parities {ps},{pt} is outcome {o2} after extraction",
                         same_projector(basis(m, ps, pt, o), basis(m, f(r.s_domain, ps, pt), f(r.t_domain, ps, pt), o2)))
        normal = (SymSet._of(r.t_domain) if plane == Plane.XY else SymSet._of(r.s_domain)) == frozenset()
        ob.check(f"{plane.name}: the shiftable parity is gone", normal)

class Mem(SymSet):
    """Arbitrary set of which one membership is known."""
    __slots__ = ("node", "inn")
    def __init__(self, f, node=None, inn=False):
        super().__init__(f); self.node, self.inn = node, inn
    def __contains__(self, n):
        if n != self.node: raise Unfit("other membership tested")
        return self.inn
    def copy(self): return Mem(self.f, self.node, self.inn)

def fake_pattern(seq):
    p = object.__new__(Pattern)
    p._Pattern__seq = list(seq)
    return p

@P.proof("commutation with signals", [F + "Pattern._commute_xs", F + "Pattern._commute_zs", F + "Pattern._commute_ms", F + "Pattern._commute_ss",
                                      F + "Pattern._commute_with_following"], backend="arbitrary sets as GF(2) forms")
def _(ob):
    def form(d): return SymSet._of(d)
    for inn in (False, True):
        want = frozenset({"E", "D"}) if inn else frozenset({"E"})
        for nm, mk in (("_commute_xs", X), ("_commute_zs", Z)):
            s = S(7, SymSet({"D"})); c = mk(3, Mem({"E"}, 7, inn))
            a, b = X(9, set()), Z(9, set())
            p = fake_pattern([a, s, c, b]); need(Pattern, nm)(p, 1)
            q = p._Pattern__seq
            ob.check(f"{nm}, shifted node {'in' if inn else 'not in'} domain", len(q) == 4 and q[0] is a and q[3] is b and q[1].kind == c.kind and q[1].node == 3
                     and form(q[1].domain) == want and q[2].kind == CommandKind.S and q[2].node == 7 and form(q[2].domain) == frozenset({"D"}))
        s = S(7, SymSet({"D"})); s2 = S(3, Mem({"E"}, 7, inn)); p = fake_pattern([s, s2]); need(Pattern, "_commute_ss")(p, 0); q = p._Pattern__seq
        ob.check(f"_commute_ss {inn}", len(q) == 2 and q[0].node == 3 and form(q[0].domain) == want and q[1].node == 7 and form(q[1].domain) == frozenset({"D"}))
        for inn2 in (False, True):
            m = Meas(3, Measurement.XZ(0.2), Mem({"E"}, 7, inn), Mem({"F"}, 7, inn2)); s = S(7, SymSet({"D"}))
            p = fake_pattern([s, m]); need(Pattern, "_commute_ms")(p, 0); q = p._Pattern__seq
            ob.check(f"_commute_ms {inn} {inn2}", len(q) == 2 and q[0].node == 3 and q[0].measurement == Measurement.XZ(0.2) and form(q[0].s_domain) == want
                     and form(q[0].t_domain) == (frozenset({"F", "D"}) if inn2 else frozenset({"F"})) and q[1].node == 7 and form(q[1].domain) == frozenset({"D"}))

# -- inductive step of the direct method -----------------------------------------------------------------------------
class Sig(dict):
    """Arbitrary map of previously shifted signals; `items` collects what the step adds."""
    def __init__(self): super().__init__(); self.tok = {}
    def keys(self): return Keys(self)
    def __getitem__(self, k):
        if isinstance(k, Tok): return Fold({"fold " + k.name})
        return super().__getitem__(k)
    def __contains__(self, k):
        if isinstance(k, Tok): return k.known
        return super().__contains__(k)
class Keys:
    def __init__(self, d): self.d = d
    def __rand__(self, o): return o & self
class Tok:
    """An arbitrary element of an arbitrary set that has a shifted signal."""
    def __init__(self, name): self.name = name; self.known = True
class Fold(SymSet):
    pass
class Dom(SymSet):
    """Arbitrary set D.  Iterating over the part of it that has shifted signals yields one arbitrary element; xoring with
    that element's signal stands for xoring with all of them (the body does the same fixed xor for every element, and
    xor commutes), giving the form D + fold(D) whose parity over the new outcomes is the parity of D over the original ones."""
    __slots__ = ("dirty",)
    def __and__(self, o):
        if not isinstance(o, Keys) and not isinstance(o, Sig): raise Unfit("intersection")
        if len(self.f) != 1: raise Unfit("domain expanded twice")
        return [Tok(next(iter(self.f)))]
    __rand__ = __and__
    def copy(self): return Dom(self.f)
    def __bool__(self): return Dom.choices[frozenset(self.f)]
    def __ne__(self, o): return not (self == o)
    def __eq__(self, o):
        if isinstance(o, SymSet): return self.f == o.f
        return False if self.f or len(o) else True
    __hash__ = SymSet.__hash__
    def __xor__(self, o): return Dom(self.f ^ self._of(o))
    __rxor__ = __xor__
Dom.choices = {}

def set_ctor(x=()):
    if isinstance(x, SymSet): return x.copy()
    if not x: return set()
    raise Unfit("set() of something else")

@P.proof("direct method, one command", [F + "Pattern.shift_signals_direct"], backend="inductive step of the extracted loop body, arbitrary sets and signals")
def _(ob):
    run = loops.step(Pattern.shift_signals_direct, 0, set=set_ctor)
    def go(cmd):
        sd = Sig(); p = fake_pattern([None, None])
        seq = p._Pattern__seq; seq[1] = cmd
        d = run((1, cmd), self=p, signal_dict=sd)
        if d["__exit__"] != "next": raise Unfit("loop exit")
        return p._Pattern__seq, dict.copy(sd)
    # original parity of D is D + fold D over new outcomes
    def par(d, vals):
        if isinstance(d, (set, frozenset)): return 0 if not d else (_ for _ in ()).throw(Unfit("concrete domain"))
        tot = 0
        for k in d.f:
            if k not in vals: raise Unfit(f"form {k}")
            tot ^= vals[k]
        return tot
    for k in (X, Z):
        cmd = k(4, Dom({"D"}))
        seq, sd = go(cmd)
        ob.check(f"{k.__name__}: domain is rewritten to the original parity", len(seq) == 2 and seq[0] is None and seq[1].kind == cmd.kind and seq[1].node == 4
                 and SymSet._of(seq[1].domain) == frozenset({"D", "fold D"}) and not sd)
    for name, m in PLANES:
        for es, et in itertools.product((False, True), repeat=2):        # emptiness of the rewritten domains
            Dom.choices = {frozenset({"s", "fold s"}): es, frozenset({"t", "fold t"}): et, frozenset({"s", "fold s", "t", "fold t"}): True}
            cmd = Meas(4, m, Dom({"s"}), Dom({"t"}))
            seq, sd = go(cmd)
            new = seq[1]
            good = len(seq) == 2 and seq[0] is None and new.kind == CommandKind.M and new.node == 4 and new.measurement == m and set(sd) <= {4}
            for ps, pt in itertools.product((0, 1), repeat=2):
                # an empty domain has parity 0
                if (ps and not es) or (pt and not et): continue
                vals = {"s": ps, "fold s": 0, "t": pt, "fold t": 0}
                for o in (0, 1):
                    o2 = o ^ (par(sd[4], vals) if 4 in sd else 0)
                    good = good and same_projector(basis(m, ps, pt, o), basis(m, par(new.s_domain, vals), par(new.t_domain, vals), o2))
            # every form must contain D and fold D together (original parities only)
            for d in (new.s_domain, new.t_domain, sd.get(4, set())):
                fs = SymSet._of(d) if isinstance(d, SymSet) else frozenset()
                good = good and all((x in fs) == ("fold " + x in fs) for x in ("s", "t"))
            ob.check(f"{name}, domains empty {not es},{not et}: relabelled measurement is the original one", good)

def gen(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(2, 9), lambda r: r.choice(["direct", "mc"]), lambda r: r.random() < 0.5)

def rank_map(cmds): return None

@P.bounded("shifted pattern branches", [F + "Pattern.shift_signals", F + "Pattern.shift_signals_direct", F + "Pattern.signals", F + "shift_outcomes"], gen,
           "random runnable patterns, 2..8 nodes (<=5 live), all planes and Paulis; up to 64 outcome assignments each; both methods", quick=14, thorough=240)
def branches(case):
    seed, n, method, std = case
    r = random.Random(seed)
    p = G.pattern(r, n, ticks=0.1, live=5, domains=0.7)
    if std:
        try: p.standardize()
        except NotImplementedError: pass        # documented: a Clifford in front of an entanglement
    q = p.copy()
    sd = q.shift_signals(method=method)
    q.check_runnability()
    assert not any(c.kind == CommandKind.S for c in q), "a signal command is left"
    assert q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes
    assert psim.measured(q) == psim.measured(p), "measurement order changed"
    for c in q:
        if c.kind == CommandKind.M:
            b = c.measurement.to_bloch().plane
            assert not (c.t_domain if b == Plane.XY else c.s_domain), f"shiftable domain left on {c}"
    ms = psim.measured(p)
    outs = list(psim.outcomes_iter(ms, 64, r))
    if method == "direct":
        new_of = None
        msg = psim.same_branches(q, p, relabel=lambda o: shift_outcomes(o, sd), outcomes=outs)
    else:
        msg = psim.same_branches(p, q, relabel=lambda o: shift_outcomes(o, sd), outcomes=outs)
    if msg: return msg
    # relabelling is exactly "xor the parity of the signal"
    for o in outs[:4]:
        want = {k: v ^ (sum(o[j] for j in sd.get(k, ())) % 2) for k, v in o.items()}
        assert dict(shift_outcomes(o, sd)) == want, f"shift_outcomes({o}, {sd})"

@P.bounded("methods agree", [F + "Pattern.shift_signals"], gen, "same generator; commands after both methods compared; idempotence", quick=6, thorough=60)
def agree(case):
    seed, n, _, std = case
    r = random.Random(seed)
    p = G.pattern(r, n, live=5, domains=0.7)
    if std:
        try: p.standardize()
        except NotImplementedError: pass        # documented: a Clifford in front of an entanglement
    before = list(p.copy())
    a, b = p.copy(), p.copy()
    sa = a.shift_signals(); b.shift_signals(method="mc")
    assert list(a) == list(b), f"direct {list(a)} vs mc {list(b)}"
    assert list(p) == before, "a copy shares mutable state with its original"
    c = a.copy(); s2 = c.shift_signals()
    assert list(c) == list(a) and not any(s2.values()), "shifting again changes the pattern"

def gens(rng, tier):
    yield from G.seeds(rng, lambda r: r.randrange(1, 7))

@P.bounded("standardized patterns and explicit signals", [F + "Pattern.shift_signals"], gens,
           "non-runnable patterns are refused before shifting", quick=3, thorough=20)
def refuse(case):
    seed, n = case
    r = random.Random(seed)
    p = G.pattern(r, max(2, n), live=5)
    seq = list(p)
    ms = [i for i, c in enumerate(seq) if c.kind == CommandKind.M]
    if len(ms) < 2: return "skip"
    i, j = sorted(r.sample(ms, 2))
    late = seq[j].node
    which = r.choice(["s_domain", "t_domain"])
    import dataclasses
    seq[i] = dataclasses.replace(seq[i], **{which: {late}})
    q = Pattern(input_nodes=p.input_nodes, cmds=seq, output_nodes=p.output_nodes)
    for m in ("direct", "mc"):
        try:
            q.copy().shift_signals(method=m)
        except pmod.RunnabilityError:
            continue
        return f"{m}: domain of node {seq[i].node} refers to the later node {late}, accepted"

@P.proof("measurement-calculus method, one command", [F + "Pattern.signals", F + "Pattern.shift_signals"], backend="inductive steps of the extracted loops; opaque neighbours, callees by their contracts")
def mc_step(ob):
    run = loops.step(Pattern.signals, 0)
    a, b = "a", "b"
    pre, post = T(), T()
    subsets = [set(), {a}, {b}, {a, b}]
    # one step: the commands before and after are untouched; a measurement becomes the same observable followed by its relabelling
    for name, m in PLANES:
        for s, t in itertools.product(subsets, repeat=2):
            cmd = Meas(4, m, set(s), set(t)); p = fake_pattern([pre, cmd, post]); sd = {9: {"old"}}
            d = run(None, self=p, signal_dict=sd, pos=1)
            q = p._Pattern__seq; k = d["pos"]
            if not (isinstance(k, int) and 2 <= k <= len(q)) or q[0] is not pre or q[-1] is not post: raise Unfit("the step works on other commands")
            mid = q[1:k]; rest = q[k:]
            if any(x is not post for x in rest): raise Unfit("the step ends elsewhere")
            ok = 1 <= len(mid) <= 2 and mid[0].kind == CommandKind.M and mid[0].node == 4 and mid[0].measurement == m and d["signal_dict"].get(9) == {"old"}
            ok = ok and (len(mid) == 1 or (mid[1].kind == CommandKind.S and mid[1].node == 4))
            sig = set(mid[1].domain) if ok and len(mid) == 2 else set()
            ok = ok and set(d["signal_dict"].get(4, ())) == sig
            for pa, pb, o in itertools.product((0, 1), repeat=3) if ok else ():
                v = {a: pa, b: pb}; par_ = lambda dom: sum(v[x] for x in dom) % 2
                # the result recorded by the original is o; the new measurement records o ^ par(sig) and the signal adds par(sig)
                ok = ok and same_projector(basis(m, par_(s), par_(t), o), basis(m, par_(mid[0].s_domain), par_(mid[0].t_domain), o ^ par_(sig)))
            plane = m.to_bloch().plane
            ok = ok and not (mid[0].t_domain if plane == Plane.XY else mid[0].s_domain)
            ob.check(f"{name}, domains {sorted(s)},{sorted(t)}: same observable, then its relabelling, which is the signal returned; nothing left to shift", ok and cmd.s_domain == s and cmd.t_domain == t)
    for c in (N(4), E((4, 5)), C(4, command.Clifford(9)), X(4, {a}), Z(4, {a}), T(), S(4, {a})):
        p = fake_pattern([pre, c, post]); sd = {9: {"old"}}
        d = run(None, self=p, signal_dict=sd, pos=1)
        q = p._Pattern__seq
        ob.check(f"{c.kind.name}: left alone", len(q) == 3 and q[0] is pre and q[1] is c and q[2] is post and d["pos"] == 2 and d["signal_dict"] == {9: {"old"}})
    # pushing a signal to the end: the commutation with the command on its right (callees by contract), one place to the right
    class Fake:
        pass
    step = loops.step(Pattern.shift_signals, 0)
    rules = {CommandKind.X: "_commute_xs", CommandKind.Z: "_commute_zs", CommandKind.M: "_commute_ms", CommandKind.S: "_commute_ss"}
    names = ("_commute_xs", "_commute_zs", "_commute_ms", "_commute_ss", "_commute_with_following")
    def go(seq, target, nxt):
        calls = []; f = Fake(); f._Pattern__seq = list(seq)
        for n in names: setattr(f, n, lambda t, n=n: calls.append((n, t)))
        f._find_op_to_be_moved = lambda kind, rev=False, skipnum=0: (calls.append(("find", kind, rev, skipnum)), nxt)[1]
        d = step(None, self=f, target=target, signal_dict={}, method="mc")
        return calls, f._Pattern__seq, d
    s = S(7, {a})
    for c in (N(4), E((4, 5)), Meas(4, Measurement.XZ(.2)), C(4, command.Clifford(9)), X(4, {a}), Z(4, {a}), T(), S(4, {a})):
        for pos in (0, 1, 2):
            seq = [pre] * pos + [s, c, post]
            calls, q, d = go(seq, pos, None)
            ob.structural(f"signal at {pos} before {c.kind.name}: commuted with it by its own rule, and found one place further", calls == [(rules.get(c.kind, "_commute_with_following"), pos)] and d["target"] == pos + 1 and d["__exit__"] != "return")
    for pos in (0, 1, 3):
        for nxt in (None, 0, 2):
            calls, q, d = go([pre] * pos + [s], pos, nxt)
            ob.structural(f"signal at the end (position {pos}, next signal {nxt}): dropped, and the last remaining signal is next",
                          q == [pre] * pos and len(calls) == 1 and calls[0][:3] == ("find", CommandKind.S, True) and calls[0][3] == 0 and d["target"] == nxt)

@P.proof("outcome relabelling", [F + "shift_outcomes"], backend="all outcomes, opaque nodes")
def relabel_unit(ob):
    nodes = [Tok(n) for n in "uvwx"]
    for bits in itertools.product((0, 1), repeat=4):
        o = dict(zip(nodes, bits))
        for size in range(4):
            for dom in itertools.combinations(nodes[1:], size):
                sd = {nodes[0]: set(dom)}; got = shift_outcomes(dict(o), sd)
                want = {**o, nodes[0]: (bits[0] + sum(o[x] for x in dom)) % 2}
                ob.check(f"outcomes {bits}, signal of size {size} {[x.name for x in dom]}: flipped by the parity of the signal, the others as they are", got == want and sd == {nodes[0]: set(dom)})
    ob.check("no signal, no change", shift_outcomes({nodes[0]: 1}, {}) == {nodes[0]: 1} and shift_outcomes({}, {nodes[0]: {nodes[1]}}) == {})
