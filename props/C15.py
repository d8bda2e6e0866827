from __future__ import annotations
import itertools, random
import networkx as nx
from gv import boot, gen as G  # noqa: F401
from gv.core import Prop, Unfit, need
from graphix.clifford import Clifford
from graphix.command import C, CommandKind as K, E, M, N, S, T, X, Z
from graphix.measurements import Measurement
from graphix.pattern import Pattern, PatternError, RunnabilityError, RunnabilityErrorReason as R

FP, FS = "graphix/pattern.py:", "graphix/space_minimization.py:"
P = Prop("C15", "proof",
    'check_runnability, max_space, space_list, nodes, add and the check of permutations are proved for arbitrary sequences of commands (loop contracts; the state after an arbitrary prefix is an arbitrary pair of sets): acceptance is equivalent to executability and a rejection names an offending command and node.  Further bookkeeping and whole sequences are compared with an independent replay (bounded).',
    ['explicit signal (S) commands carry no condition, as execution refuses them'], ["z3"])

def replay(inputs, cmds):
    """(position, {(reason, node)}) of the first command that cannot be executed, or None; and the space after every command."""
    active = list(inputs); measured = set(); space = []
    for i, c in enumerate(cmds):
        bad = set()
        def act(v):
            if v in measured: bad.add((R.AlreadyMeasured, v))
            elif v not in active: bad.add((R.NotYetActive, v))
        if c.kind == K.N:
            if c.node in active: bad.add((R.AlreadyActive, c.node))
            if c.node in measured: bad.add((R.AlreadyMeasured, c.node))
        elif c.kind == K.E:
            for v in c.nodes: act(v)
        elif c.kind == K.M:
            act(c.node)
            for d in (c.s_domain, c.t_domain):
                for v in d:
                    if v == c.node: bad |= {(R.DomainSelfLoop, v)} | ({(R.NotYetMeasured, v)} if v not in measured else set())
                    elif v not in measured: bad.add((R.NotYetMeasured, v))
        elif c.kind in (K.X, K.Z):
            act(c.node)
            for v in c.domain:
                if v not in measured: bad.add((R.NotYetMeasured, v))
        elif c.kind == K.C: act(c.node)
        if bad: return (i, bad), space
        if c.kind == K.N: active.append(c.node)
        if c.kind == K.M: active.remove(c.node); measured.add(c.node)
        space.append(len(active))
    return None, space

def rand_cmds(r, nodes, length):
    out = []
    for _ in range(length):
        v = r.choice(nodes); u = r.randrange(9)
        dom = lambda: {w for w in nodes if r.random() < .2}
        if u <= 2: out.append(N(v))
        elif u == 3: w = r.choice([x for x in nodes if x != v] or [v]); out.append(E((v, w)))
        elif u <= 5: out.append(M(v, Measurement.XY(G.angle(r)), dom(), dom()))
        elif u == 6: out.append(r.choice([X, Z])(v, dom()))
        elif u == 7: out.append(C(v, Clifford(r.randrange(24))))
        else: out.append(T())
    return out

def mutate(r, cmds, nodes):
    cmds = list(cmds)
    u = r.randrange(8)
    if not cmds: return cmds
    i = r.randrange(len(cmds)); j = r.randrange(len(cmds))
    if u == 0: cmds.insert(i, cmds[j])
    elif u == 1: cmds.pop(i)
    elif u == 2: cmds[i], cmds[j] = cmds[j], cmds[i]
    elif u == 3: cmds.insert(i, cmds.pop(j))
    elif u == 4: cmds.insert(i, rand_cmds(r, nodes, 1)[0])
    else:
        ks = [q for q, c in enumerate(cmds) if c.kind in (K.M, K.X, K.Z)]
        if ks:
            q = r.choice(ks); c = cmds[q]; w = r.choice(nodes)
            if c.kind == K.M: cmds[q] = M(c.node, c.measurement, set(c.s_domain) ^ ({w} if u == 5 else set()), set(c.t_domain) ^ ({w} if u != 5 else set()))
            else: cmds[q] = type(c)(c.node, set(c.domain) ^ {w})
    return cmds

def judge(inputs, cmds):
    p = Pattern(input_nodes=inputs, cmds=cmds)
    want, space = replay(inputs, cmds)
    snap = repr(p)
    try: p.check_runnability(); got = None
    except RunnabilityError as e: got = e
    assert repr(p) == snap, "the check modifies the pattern"
    if want is None:
        assert got is None, f"rejected ({got!r}) although it can be executed: {p}"
    else:
        assert got is not None, f"accepted although command {want[0]} of {p} cannot be executed: {want[1]}"
        assert got.cmd is cmds[want[0]] or got.cmd == cmds[want[0]], f"{got!r} does not name the offending command {cmds[want[0]]} of {p}"
        assert (got.reason, got.node) in want[1], f"{got!r} but the reasons are {want[1]} in {p}"
        str(got)
    return p, want is None, space

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([0, 1, 2, 3, 4, 5, 6, 7]))

@P.bounded("runnability", [FP + "Pattern.check_runnability"], cases, "random runnable patterns up to 7 nodes with 0..3 defects, and random sequences", quick=8, thorough=100)
def runnable(case):
    seed, n = case
    r = random.Random(seed)
    if r.random() < .25:
        nodes = list(range(max(1, min(n, 4)))); ins = r.sample(nodes, r.randrange(len(nodes) + 1)); cmds = rand_cmds(r, nodes, r.randrange(12))
    else:
        q = G.pattern(r, n, ticks=.05) if n else Pattern()
        ins = list(q.input_nodes); nodes = sorted(q.nodes()) + [97]; cmds = list(q)
        for _ in range(r.choice([0, 1, 1, 2, 3])): cmds = mutate(r, cmds, nodes)
    judge(ins, cmds)

def short(rng, tier):
    a = [N(0), N(1), E((0, 1)), *(M(v, Measurement.XY(.1), s, t) for v in (0, 1) for s in ((), (0,), (1,)) for t in ((), (0,), (1,))), *(k(v, d) for k in (X, Z) for v in (0, 1) for d in ((), (0,), (1,))), C(0, Clifford.H), C(1, Clifford.S)]
    for ins in ([], [0], [1, 0]):
        for L in range(0, 4):
            for first in itertools.product(range(len(a)), repeat=min(L, 2)): yield [ins, L, list(first)]

def alphabet():
    D = lambda d: set(d)
    return [N(0), N(1), E((0, 1)), *(M(v, Measurement.XY(.1), D(s), D(t)) for v in (0, 1) for s in ((), (0,), (1,)) for t in ((), (0,), (1,))), *(k(v, D(d)) for k in (X, Z) for v in (0, 1) for d in ((), (0,), (1,))), C(0, Clifford.H), C(1, Clifford.S)]

@P.bounded("all short sequences", [FP + "Pattern.check_runnability"], short, "all sequences of at most 3 commands over two nodes with arbitrary domains", quick=12, thorough=60)
def allshort(case):
    ins, L, first = case
    A = alphabet()
    for rest in itertools.product(range(len(A)), repeat=max(0, L - 2)):
        judge(ins, [A[i] for i in (*first, *rest)])

@P.bounded("bookkeeping", [FP + f"Pattern.{m}" for m in ("add", "extend", "replace", "clear", "nodes", "n_node", "input_nodes", "output_nodes", "reorder_output_nodes", "reorder_input_nodes", "measurement_commands",
           "correction_commands", "clifford_commands", "max_space", "space_list")] + [FS + "pattern_max_space", FP + "assert_permutation"], cases, "runnable patterns up to 7 nodes built in several ways", quick=8, thorough=80)
def book(case):
    seed, n = case
    r = random.Random(seed)
    q = G.pattern(r, n, ticks=.05, signals=.05) if n else Pattern()
    ins = list(q.input_nodes); cmds = list(q); outs = list(q.output_nodes)
    how = r.randrange(5)
    if how == 0: p = Pattern(input_nodes=iter(ins), cmds=iter(cmds), output_nodes=iter(outs))
    elif how == 1:
        p = Pattern(input_nodes=ins)
        for c in cmds: p.add(c)
    elif how == 2:
        k = r.randrange(len(cmds) + 1); p = Pattern(input_nodes=ins); p.extend(cmds[:k], *cmds[k:k + 1]); p.extend(iter(cmds[k + 1:]))
    elif how == 3:
        p = G.pattern(r, 4); p.replace(list(cmds), input_nodes=ins)
    else:
        p = q.copy(); p.clear(); assert len(p) == 0 and p.output_nodes == ins and p.n_node == len(ins) and p.nodes() == set(ins); p.extend(cmds)
    prep = [c.node for c in cmds if c.kind == K.N]; meas = [c.node for c in cmds if c.kind == K.M]
    left = [v for v in ins + prep if v not in set(meas)]
    assert list(p) == cmds and len(p) == len(cmds) and all(p[i] is cmds[i] for i in range(len(cmds)))
    assert p.input_nodes == ins and p.nodes() == set(ins + prep) and p.n_node == len(ins + prep), f"n_node {p.n_node} nodes {p.nodes()}; {p}"
    assert sorted(p.output_nodes) == sorted(left), f"outputs {p.output_nodes} but {left} are left; {p}"
    if how: assert p.output_nodes == left
    else: assert p.output_nodes == outs
    want, space = replay(ins, cmds)
    assert want is None
    steps = [s for s, c in zip(space, cmds) if c.kind in (K.N, K.M)]
    assert p.space_list() == steps, f"space_list {p.space_list()} but the replay gives {steps}; {p}"
    assert p.max_space() == max([len(ins), *space]), f"max_space {p.max_space()}; {p}"
    assert p.measurement_commands() == {c.node: c for c in cmds if c.kind == K.M}
    assert p.clifford_commands() == {c.node: c.clifford for c in cmds if c.kind == K.C}
    # lists handed out are copies
    p.output_nodes.append(99); p.input_nodes.append(99)
    assert p.input_nodes == ins and 99 not in p.output_nodes
    # permutations
    for get, set_ in ((lambda: p.output_nodes, p.reorder_output_nodes), (lambda: p.input_nodes, p.reorder_input_nodes)):
        cur = get(); new = cur[:]; r.shuffle(new); u = r.randrange(4)
        bad = list(new)
        if u == 1: bad.append(r.choice([*new, 99]))
        elif u == 2 and bad: bad.pop()
        elif u == 3 and bad: bad[r.randrange(len(bad))] = r.choice([*bad, 98])
        try: set_(iter(bad)); ok = True
        except PatternError: ok = False
        assert ok == (sorted(bad) == sorted(cur)), f"reordering {cur} as {bad} {'accepted' if ok else 'rejected'}"
        assert get() == (bad if ok else cur)

@P.bounded("graph properties", [FP + "Pattern.max_degree", FP + "Pattern.isolated_nodes", FP + "Pattern.connected_nodes", FP + "Pattern.correction_commands"], cases, "runnable patterns up to 7 nodes with plus states", quick=5, thorough=50)
def graphp(case):
    seed, n = case
    r = random.Random(seed)
    q = G.pattern(r, n, states=False, cliffords=0, edges=r.choice([.2, .5])) if n else Pattern()
    cnt = {}
    for c in q:
        if c.kind == K.E: cnt[frozenset(c.nodes)] = cnt.get(frozenset(c.nodes), 0) ^ 1
    es = [e for e, k in cnt.items() if k]
    nb = {v: {w for e in es if v in e for w in e if w != v} for v in q.nodes()}
    assert q.max_degree() == max(map(len, nb.values()), default=0), f"max_degree {q.max_degree()} of {q}"
    assert q.isolated_nodes() == {v for v in nb if not nb[v]}, f"isolated {q.isolated_nodes()} of {q}"
    q.standardize()
    assert q.correction_commands() == [c for c in q if c.kind in (K.X, K.Z)]
    for v in sorted(nb):
        prep = {w for w in nb if r.random() < .3}
        assert sorted(q.connected_nodes(v)) == sorted(nb[v]), f"connected_nodes({v}) = {q.connected_nodes(v)} of {q}"
        assert sorted(q.connected_nodes(v, prep)) == sorted(nb[v] - prep)

# -- deductive units ------------------------------------------------------------------------------------------------
import types
from gv import cutloop as CL, fsets as F
z3 = boot.z3()
L = F.Lab
KINDS = ["N", "E", "M", "other M", "X", "Z", "C", "S", "T"]

class OtherM:      # another implementation of BaseM: its domains are not known
    kind = K.M
    def __init__(self, node): self.node = node
    def __getattr__(self, a): raise Unfit(f"attribute {a} of another measurement command")

def mstub(node, s, t):      # an M command with arbitrary domains
    c = object.__new__(M)
    for k, v in dict(node=node, s_domain=s, t_domain=t, measurement=None).items(): object.__setattr__(c, k, v)
    return c

def arbitrary(eng, kind):
    """An arbitrary command: (command, nodes it uses, its domains)"""
    a, b = F.Lbl(eng.label("a")), F.Lbl(eng.label("b"))
    f = lambda n: z3.Function(eng.fresh(n), L, F.B)
    S = lambda **k: types.SimpleNamespace(kind=K[kind], **k)
    match kind:
        case "N": return S(node=a, state=None), [], []
        case "E": return S(nodes=(a, b)), [a, b], []
        case "M":
            s, t = f("s"), f("t"); c = mstub(a, F.FSet(s), F.FSet(t)); return c, [a], [s, t]
        case "other M": return OtherM(a), [a], []
        case "X" | "Z": d = f("d"); return S(node=a, domain=F.FSet(d)), [a], [d]
        case "C": return S(node=a, clifford=None), [a], []
        case "S": d = f("d"); return S(node=a, domain=F.FSet(d)), [], []
        case "T": return S(), [], []

class Inputs(F.FSeq):
    def __init__(self, mem, n): super().__init__(mem); self.n = n
    def gv_len(self): return CL.ZI(self.n)

class Cmds(CL.Cut, F.Obj):
    """The pattern: an arbitrary sequence of commands, seen at an arbitrary point of a run."""
    label = "commands"
    def __init__(self, eng, kind):
        inp, n_in = z3.Function("inp", L, F.B), z3.Int("n_inputs"); eng.assume(n_in >= 0); ins = Inputs(inp, n_in)
        F.Obj.__init__(self, Pattern, lifter=CL.lift, eng=eng, kind=kind, inp=inp, n_in=n_in, input_nodes=ins, _Pattern__input_nodes=ins, _Pattern__seq=self, done=False)
    def item(self):
        self.cmd, self.used, self.doms = arbitrary(self.eng, self.kind); return self.cmd
    def ended(self): self.done = True
    def __setattr__(self, a, v): self.__dict__[a] = v

class Run(Cmds):
    """Contract of the loop: before command j two sets are the nodes that are active (prepared or input, not measured) and
    measured after the first j commands, all of which could be executed."""
    def __init__(self, eng, kind, violation=None):
        super().__init__(eng, kind); self.violation = violation
    def roles(self):
        eng = self.eng; x = eng.label("x")
        A, Me = self.A, self.Me = z3.Function(eng.fresh("active"), L, F.B), z3.Function(eng.fresh("measured"), L, F.B)
        eng.forall(L, lambda y: z3.Not(z3.And(A(y), Me(y))))
        n = lambda ks: self.cmd.node.e == x if self.kind in ks else z3.BoolVal(False)
        m = ("M", "other M")
        return [CL.Role("set", "active nodes", lambda v: v.mem(x) == self.inp(x), lambda: A, lambda v: v.mem(x) == z3.And(z3.Or(A(x), n(("N",))), z3.Not(n(m))), lambda: A),
                CL.Role("set", "measured nodes", lambda v: z3.Not(v.mem(x)), lambda: Me, lambda v: v.mem(x) == z3.Or(Me(x), n(m)), lambda: Me)]
    def item(self):
        c = super().item()
        if self.violation: self.violation(self)
        return c
    def completed(self):
        self.eng.cover("a command is accepted")
        if self.violation: self.eng.prove("a command that violates it is not accepted", False)

def offends(w, r, n):
    """node n is an offending node of the command, for reason r"""
    A, Me = w.A, w.Me; used = z3.Or(*[n == u.e for u in w.used]) if w.used else z3.BoolVal(False); dom = z3.Or(*[d(n) for d in w.doms]) if w.doms else z3.BoolVal(False)
    prep = n == w.cmd.node.e if w.kind == "N" else z3.BoolVal(False)
    return {R.AlreadyActive: z3.And(prep, A(n)), R.AlreadyMeasured: z3.And(z3.Or(prep, used), Me(n)), R.NotYetActive: z3.And(used, z3.Not(A(n)), z3.Not(Me(n))),
            R.NotYetMeasured: z3.And(dom, z3.Not(Me(n))), R.DomainSelfLoop: z3.And(dom, used)}[r]

def run_check(eng, w):
    f = CL.lift(Pattern.check_runnability)
    try: f(w)
    except RunnabilityError as e:
        if not hasattr(w, "cmd"): eng.prove("raised for a command", False); return
        if e.cmd is not w.cmd: eng.prove("the named command is the offending one", False); return
        if w.kind == "S": eng.prove("S commands are not constrained", False); return
        eng.cover("rejected"); eng.prove(f"the named node is offending ({e.reason.name})", offends(w, e.reason, e.node.e))
    except (Unfit, AssertionError): raise
    except Exception as e: eng.prove(f"no other exception ({type(e).__name__})", False)
    else:
        if not w.done: eng.prove("every command is visited", False)
        else: eng.cover("runnable"); eng.prove("explored", True)

CR = [FP + "Pattern.check_runnability"]

@P.proof("what is rejected is not runnable", CR, "z3")
def reject_unit(ob):
    for k in KINDS: CL.attempt(ob, k, lambda eng: run_check(eng, Run(eng, k))).close(["runnable", "a command is accepted"] + (["rejected"] if k not in ("S", "T") else []))

@P.proof("what is not runnable is rejected", CR, "z3")
def accept_unit(ob):
    for k in KINDS[:-2]:
        for r in R:
            if r == R.DomainSelfLoop: continue      # subsumed: the node is active, hence not measured
            def v(w, r=r):
                x = w.eng.label("wit"); w.eng.assume(offends(w, r, x)); w.eng.guides = [x]
                if not w.eng.feasible(): raise F.Infeasible
            CL.attempt(ob, f"{k}: {r.name}", lambda eng: run_check(eng, Run(eng, k, v))).close()
    for k in ("S", "T"): CL.attempt(ob, f"{k} is accepted", lambda eng: run_check(eng, Run(eng, k))).close(["a command is accepted"])

def counters(eng, kind, c):
    """ghost: the space before an arbitrary command and at the end, and the largest one so far"""
    c.__dict__.update(now=z3.Int("space"), top=z3.Int("largest"), dn={"N": 1, "M": -1, "other M": -1}.get(kind, 0), pre=eng.fresh("spaces"))
    eng.assume(z3.And(c.top >= c.now, c.top >= c.n_in))
    nxt = c.now + c.dn
    space = CL.Role("int", "space", lambda v: CL.ZI.of(v) == c.n_in, lambda: c.now, lambda v: CL.ZI.of(v) == nxt, lambda: c.now)
    top = CL.Role("int", "largest space", lambda v: CL.ZI.of(v) == c.n_in, lambda: c.top, lambda v: CL.ZI.of(v) == z3.If(nxt > c.top, nxt, c.top), lambda: c.top)
    def end(v):
        if v.prefix != c.pre: return False
        if c.dn == 0: return not v.items
        return CL.ZI.of(v.items[0]) == nxt if len(v.items) == 1 else False
    lst = CL.Role("list", "spaces", lambda v: v.prefix is None and not v.items, lambda: c.pre, end, lambda: c.pre)
    return space, top, lst

class Counting(Cmds):
    label = "commands"
    def roles(self):
        space, top, lst = counters(self.eng, self.kind, self)
        return {"max": [space, top], "list": [space, lst]}[self.what]

class Nodes(Cmds):
    label = "commands"
    def roles(self):
        x = self.eng.label("x"); V = self.__dict__["V"] = z3.Function(self.eng.fresh("prepared"), L, F.B)
        new = lambda: self.cmd.node.e == x if self.kind == "N" else z3.BoolVal(False)
        return [CL.Role("set", "nodes", lambda v: v.mem(x) == self.inp(x), lambda: V, lambda v: v.mem(x) == z3.Or(V(x), new()), lambda: V)]

@P.proof("space and nodes", [FS + "pattern_max_space", FP + "Pattern.max_space", FP + "Pattern.space_list", FP + "Pattern.nodes"], "z3")
def count_unit(ob):
    from graphix import space_minimization as sm
    for k in KINDS:
        def h_max(eng):
            w = Counting(eng, k); w.what = "max"
            r = CL.lift(Pattern.max_space, pattern_max_space=CL.lift(sm.pattern_max_space))(w)
            eng.prove("every command is visited", w.done); eng.prove("the largest space is returned", CL.ZI.of(r) == w.top); eng.cover("end")
        CL.attempt(ob, f"max_space, {k}", h_max).close(["end"])
        def h_list(eng):
            w = Counting(eng, k); w.what = "list"
            r = CL.lift(Pattern.space_list)(w)
            eng.prove("every command is visited", w.done); eng.prove("the spaces are returned", isinstance(r, CL.GList) and r.prefix == w.pre and not r.items); eng.cover("end")
        CL.attempt(ob, f"space_list, {k}", h_list).close(["end"])
        def h_nodes(eng):
            w = Nodes(eng, k); r = CL.lift(Pattern.nodes)(w); x = eng.label("y")
            eng.prove("every command is visited", w.done); eng.prove("inputs and prepared nodes are returned", F.conv(r).mem(x) == w.V(x)); eng.cover("end")
        CL.attempt(ob, f"nodes, {k}", h_nodes).close(["end"])

class User(CL.Cut):
    """An arbitrary list of nodes, visited from its beginning; `seen`: the nodes of the part already visited."""
    label = "list"
    def __init__(self, eng):
        self.eng, self.done = eng, False
        self.U, self.S = z3.Function(eng.fresh("listed"), L, F.B), z3.Function(eng.fresh("seen"), L, F.B)
        eng.forall(L, lambda x: z3.Implies(self.S(x), self.U(x)))
    def roles(self):
        x = self.eng.label("x"); R = z3.Function(self.eng.fresh("left"), L, F.B)
        self.eng.forall(L, lambda y: R(y) == z3.And(self.U(y), z3.Not(self.S(y))))
        return [CL.Role("set", "nodes that are still to come", lambda v: v.mem(x) == self.U(x), lambda: R, lambda v: v.mem(x) == z3.And(R(x), x != self.node), lambda: R)]
    def item(self):
        self.node = self.eng.label("node"); self.eng.assume(self.U(self.node)); self.eng.guides = [self.node]; return F.Lbl(self.node)
    def completed(self):
        self.eng.prove("a node that comes twice is not accepted", z3.Not(self.S(self.node))); self.eng.cover("accepted node")
    def ended(self): self.done = True

@P.proof("permutations", [FP + "assert_permutation"], "z3 (loop invariant)")
def permutation_unit(ob):
    from graphix import pattern as gp
    def h(eng):
        O = z3.Function(eng.fresh("original"), L, F.B); user = User(eng); orig = F.FSet(lambda x: O(x))
        def mkset(x=()):
            if x is user: return F.FSet(lambda y: user.U(y), True)
            return F.mkset(x)
        f = CL.lift(gp.assert_permutation, set=mkset)
        try: f(orig, user)
        except PatternError:
            node = getattr(user, "node", None); y = eng.label("y")
            if node is None:
                eng.prove_exists("rejected before the loop only if the sets of nodes differ", (L,), lambda x: O(x) != user.U(x)); eng.cover("other nodes")
            else: eng.prove("rejected in the loop only if a node comes twice", user.S(node)); eng.cover("twice")
            return
        y = eng.label("y"); eng.prove("every node is looked at", user.done); eng.prove("accepted only if the nodes are the same", O(y) == user.U(y)); eng.cover("end")
    CL.attempt(ob, "assert_permutation", h).close(["accepted node", "twice", "other nodes", "end"])

@P.proof("reordering and resetting", [FP + "Pattern." + m for m in ("reorder_output_nodes", "reorder_input_nodes", "clear", "replace", "extend")], "evaluation (opaque contents)")
def reset_unit(ob):
    from gv.extract import raw, rebind
    pre = lambda **k: types.SimpleNamespace(**{"_Pattern__n_node": 10, "_Pattern__output_nodes": "outs", "_Pattern__seq": "seq", "_Pattern__input_nodes": "ins", **k})
    for which, other in (("output", "input"), ("input", "output")):
        mine, theirs = f"_Pattern__{which}_nodes", f"_Pattern__{other}_nodes"
        for kind in ("list", "iterator"):
            old, new, seen = [1, 2, 3], [object() for _ in range(3)], []
            st = pre(**{mine: old}); given = list(new)
            rebind(getattr(Pattern, f"reorder_{which}_nodes"), assert_permutation=lambda a, b: seen.append((a is old, list(b))))(st, given if kind == "list" else iter(given))
            ob.structural(f"{which}s from a {kind}: checked against the current ones", seen == [(True, new)])
            got = getattr(st, mine)
            ob.structural(f"{which}s from a {kind}: set to a private copy", isinstance(got, list) and got == new and got is not given)
            ob.structural(f"{which}s from a {kind}: nothing else changes", vars(st) == {**vars(pre()), mine: got})
        st = pre(**{mine: [1, 2]})
        def refuse(*a): raise PatternError("no")
        try: rebind(getattr(Pattern, f"reorder_{which}_nodes"), assert_permutation=refuse)(st, [2, 2]); ok = False
        except PatternError: ok = vars(st) == {**vars(pre()), mine: [1, 2]}
        ob.structural(f"{which}s: a list that is refused changes nothing", ok)
    a, b = object(), object(); ins = [a, b]
    st = pre(**{"_Pattern__input_nodes": ins}); raw(Pattern.clear)(st)
    ob.structural("cleared: no commands, the inputs are the outputs", st._Pattern__seq == [] and st._Pattern__output_nodes == [a, b] and st._Pattern__input_nodes is ins and st._Pattern__n_node == 2)
    ob.structural("cleared: separate lists", st._Pattern__output_nodes is not ins)
    for given in (None, [b], []):
        log = []
        class St(types.SimpleNamespace):
            def clear(self): log.append(("clear", list(self._Pattern__input_nodes)))
            def extend(self, *c): log.append(("extend", [y for x in c for y in (x if isinstance(x, list) else [x])]))
            def add(self, c): log.append(("add", c))
        st = St(**vars(pre(**{"_Pattern__input_nodes": ins}))); cmds = [object(), object()]
        raw(Pattern.replace)(st, cmds, given)
        ob.structural(f"replaced ({'same' if given is None else len(given)} inputs): cleared, then the commands", log == [("clear", ins if given is None else given), ("extend", cmds)])
        ob.structural("replaced: the inputs are not shared with the caller", given is None or st._Pattern__input_nodes is not given)
    for n in range(4):      # every argument is handled on its own: a command, or some commands
        c = [object() for _ in range(6)]; log = []
        args = [c[0], [c[1], c[2]], iter([c[3]]), ()][:n] + [c[5]]
        raw(Pattern.extend)(types.SimpleNamespace(add=log.append), *args)
        ob.structural(f"extended by {n + 1} arguments: the commands are added in order", log == [c[0], c[1], c[2], c[3]][:[0, 1, 3, 4][n]] + [c[5]])

class Outs:
    """An arbitrary list of nodes: its changes are recorded; does it contain `node`?"""
    def __init__(self, node, has): self.node, self.has, self.log = node, has, []
    def _known(self, x):
        if x is not self.node or self.log: raise Unfit("list operation")
    def __contains__(self, x): self._known(x); return self.has
    def append(self, x): self._known(x); self.log.append("append")
    def remove(self, x):
        self._known(x)
        if not self.has: raise ValueError("list.remove(x): x not in list")
        self.log.append("remove")
    def __getattr__(self, a): raise Unfit(f"list operation {a}")

@P.proof("adding a command", [FP + "Pattern.add"], "all kinds of commands, the node among the outputs or not")
def add_unit(ob):
    from gv.extract import raw
    class Node:
        def __eq__(self, o): raise Unfit("nodes compared")
        __hash__ = None
    class Seq(list): pass
    for k in KINDS:
        for has in (False, True):
            node = Node(); outs = Outs(node, has); old = object(); seq = [old]
            kk = {"other M": "M"}.get(k, k)
            cmd = types.SimpleNamespace(kind=K[kk], node=node) if kk not in ("E", "T") else types.SimpleNamespace(kind=K[kk], nodes=(node, Node()))
            st = types.SimpleNamespace(_Pattern__n_node=10, _Pattern__output_nodes=outs, _Pattern__seq=seq, _Pattern__input_nodes="inputs")
            r = raw(Pattern.add)(st, cmd)
            lbl = f"{k}, the node is {'' if has else 'not '}an output"
            ob.structural(f"{lbl}: the command is appended", st._Pattern__seq is seq and len(seq) == 2 and seq[0] is old and seq[1] is cmd)
            ob.structural(f"{lbl}: outputs", st._Pattern__output_nodes is outs and outs.log == ({"N": ["append"], "M": ["remove"] if has else []}.get(kk, [])))
            ob.structural(f"{lbl}: number of nodes, inputs", st._Pattern__n_node == 10 + (kk == "N") and st._Pattern__input_nodes == "inputs" and r is None)


@P.proof("selections", [FP + "Pattern." + m for m in ("input_nodes", "output_nodes", "n_node", "__len__", "__iter__", "__getitem__", "measurement_commands", "clifford_commands", "correction_commands", "connected_nodes", "max_degree", "isolated_nodes", "_find_op_to_be_moved")], "evaluation over opaque commands: every sequence of up to 4 kinds")
def selections_unit(ob):
    """Every command is looked at on its own: sequences of opaque commands of every kind."""
    from gv.chains import Me
    from gv.extract import raw
    class Cmd:
        def __init__(self, kind, i): self.kind, self.node, self.clifford = kind, f"n{i}", f"c{i}"
    class Pat(Me):
        def __iter__(self): return iter(self._Pattern__seq)
        def __len__(self): return len(self._Pattern__seq)
    ks = [K.N, K.E, K.M, K.X, K.Z, K.C, K.T, K.S]
    for n in range(4):
        good = {m: True for m in ("measurement_commands", "clifford_commands", "correction_commands", "access", "first of a kind")}
        for kinds in itertools.product(ks, repeat=n):
            seq = [Cmd(k, i) for i, k in enumerate(kinds)]; me = Pat(_Pattern__seq=seq, is_standard=lambda *a: True); old = list(seq)
            ms = raw(Pattern.measurement_commands)(me); good["measurement_commands"] &= list(ms) == [c.node for c in seq if c.kind == K.M] and all(ms[c.node] is c for c in seq if c.kind == K.M)
            cs = raw(Pattern.clifford_commands)(me); good["clifford_commands"] &= cs == {c.node: c.clifford for c in seq if c.kind == K.C}
            xs = raw(Pattern.correction_commands)(me); want = [c for c in seq if c.kind in (K.X, K.Z)]; good["correction_commands"] &= len(xs) == len(want) and all(a is b for a, b in zip(xs, want))
            good["access"] &= raw(Pattern.__len__)(me) == n and all(a is b for a, b in zip(raw(Pattern.__iter__)(me), seq)) and all(raw(Pattern.__getitem__)(me, i) is c for i, c in enumerate(seq))
            for op in (K.E, K.M):
                at = [i for i, k in enumerate(kinds) if k == op]
                for skip in range(3):
                    good["first of a kind"] &= raw(Pattern._find_op_to_be_moved)(me, op, skipnum=skip) == (at[skip] if skip < len(at) else None) and raw(Pattern._find_op_to_be_moved)(me, op, rev=True, skipnum=skip) == (at[-1 - skip] if skip < len(at) else None)
            if me.gv_set or seq != old: good = dict.fromkeys(good, False)
        for m, ok in good.items(): ob.structural(f"{m}: exactly the commands of this kind, in order, all sequences of {n} kinds", ok)
    for which in ("input", "output"):
        inner = ["a", "b"]; me = Me(**{f"_Pattern__{which}_nodes": inner, "_Pattern__n_node": 7}); got = raw(getattr(Pattern, f"{which}_nodes"))(me)
        ob.structural(f"{which}_nodes: a copy of the list", got == inner and got is not inner and isinstance(got, list) and not me.gv_set)
    ob.structural("n_node", raw(Pattern.n_node)(me) == 7)
    for n in range(4):
        pairs = list(itertools.combinations(range(n), 2))
        for es in itertools.product((0, 1), repeat=len(pairs)):
            g = nx.Graph(); g.add_nodes_from(range(n)); g.add_edges_from(e for e, k in zip(pairs, es) if k); nb = {v: set(g.neighbors(v)) for v in g}
            me = Me(to_opengraph=lambda: types.SimpleNamespace(graph=g))
            ob.structural(f"{n} nodes, edges {list(g.edges)}: isolated nodes and maximal degree of the open graph", raw(Pattern.isolated_nodes)(me) == {v for v in nb if not nb[v]} and raw(Pattern.max_degree)(me) == max(map(len, nb.values()), default=0))
            for std, prep in itertools.product((False, True), (None, set(), {0}, {1, 2})):
                log = []; st = [std]
                class Std(Pat):
                    def is_standard(self, strict=False): return st[0]
                    def standardize(self): log.append(1); st[0] = True; self.gv_have["_Pattern__seq"] = self.seq
                    def _find_op_to_be_moved(self, *a, **k): return raw(Pattern._find_op_to_be_moved)(self, *a, **k)
                seq = [N(v) for v in range(n)] + [E(e if i % 2 else e[::-1]) for i, e in enumerate(g.edges)] + [M(0), X(1, {0})][:n]
                me = Std(_Pattern__seq=seq if std else seq[::-1]); me.__dict__["seq"] = seq
                ob.structural(f"{n} nodes, edges {list(g.edges)}, standard={std}, {prep} prepared: the neighbours that are not", all(sorted(raw(Pattern.connected_nodes)(me, v, *(() if prep is None else (prep,)))) == sorted(nb[v] - (prep or set())) for v in nb) and log == ([1] if not std and n else []))
