from __future__ import annotations
import itertools, random, types
import networkx as nx
import numpy as np
from gv import boot, gen as G, mats as M, psim  # noqa: F401
from gv import cutloop as CL, extract as X, isets as I
from gv.core import Prop, Unfit, need
from gv.cutloop import ZI
from gv.isets import ISet, term
from graphix.clifford import Clifford
from graphix.command import CommandKind as K, E, N
from graphix.fundamentals import Axis, Plane
from graphix.measurements import BlochMeasurement, Measurement
from graphix.opengraph import OpenGraph, OpenGraphError
from graphix.pattern import Pattern, PatternError

FP, FOG = "graphix/pattern.py:", "graphix/opengraph.py:"
P = Prop("C16", "proof",
    "The linear map of every branch of the composition is compared with the contraction of the maps of both operands over the merged ports, in the documented order.", [], [])

# -- fresh labels ----------------------------------------------------------------------------------------------------
z3 = boot.z3()
class Sorted(CL.Cut):
    """the members of a set in ascending order"""
    label = "loop over the sorted nodes"
    def __init__(self, s): self.s = s
    def roles(self): return self.eng.loop_roles(self)
    def item(self): return ZI(self.cur)
    def completed(self): self.eng.covered.add("iteration")

@P.proof("fresh labels", [FP + "Pattern.node_mapping"], "z3 (loop invariants)")
def fresh_labels(ob):
    """For every set of nodes, initial mapping, start, avoided and preserved labels (each option given or left out)."""
    for with_map, with_av, with_pre in ((False, False, False), (False, True, True), (True, False, False), (True, True, True)):
        def h(eng):
            V, dm, vm, av, pr = eng.pred("node"), eng.pred("mapped"), eng.fun("image"), eng.pred("avoided"), eng.pred("preserved"); start = eng.int("start")
            no = lambda x: z3.BoolVal(False)
            D, A, R = (dm if with_map else no), (av if with_av else no), (pr if with_pre else no)
            used = lambda x, V_=None: z3.Or(A(x), R(x), hit(x))
            inv = eng.fun("preimage")          # of the initial mapping: some preimage of each value
            hit = (lambda x: z3.And(D(inv(x)), vm(inv(x)) == x)) if with_map else no
            if with_map: eng.assume(z3.ForAll([k0 := z3.Int("k0")], z3.Implies(D(k0), hit(vm(k0)))))
            seen = {}
            def state(Vis):      # invariant over the map r and the candidate c once the nodes of Vis are done
                fresh = lambda x: z3.And(Vis(x), V(x), z3.Not(D(x)), z3.Not(R(x)))
                return fresh
            rd, rv, c0, back = eng.pred("done"), eng.fun("value"), eng.int("candidate"), eng.fun("back")
            def invariant(rdom, rval, cand, Vis, back_):
                fresh = state(Vis); x, y, z = z3.Ints("x y z")
                return dict(domain=(1, lambda x: rdom(x) == z3.Or(D(x), fresh(x))), extends=(1, lambda x: z3.Implies(D(x), rval(x) == vm(x))),
                            unused=(1, lambda x: z3.Implies(fresh(x), z3.And(start <= rval(x), rval(x) < cand, z3.Not(used(rval(x)))))),
                            ascending=(2, lambda x, y: z3.Implies(z3.And(fresh(x), fresh(y), x < y), rval(x) < rval(y))),
                            first=(1, lambda z: z3.Implies(z3.And(start <= z, z < cand), z3.Or(used(z), *[z3.And(fresh(b), rval(b) == z) for b in back_(z)]))), start=(0, lambda: cand >= start))
            def formula_of(parts): return z3.And(*[z3.ForAll(xs, f(*xs)) if n else f() for n, f in parts.values() for xs in [z3.Ints("x! y!")[:n]]])
            def roles(cut):
                def m_init(v): return z3.And(z3.ForAll([x := z3.Int("x!")], z3.And(v.dom(x) == D(x), z3.Implies(D(x), v.val(x) == vm(x)))))
                def setm(dom, val):
                    def f(v): v.dom, v.val = dom, val; seen["map"] = v
                    return f
                def mid():
                    cur = cut.cur = eng.int("node"); eng.assume(z3.And(V(cur))); Vis = lambda x: x < cur
                    for n, f in invariant(rd, rv, c0, Vis, lambda z: [back(z)]).values():
                        xs = z3.Ints("x! y!")[:n]; eng.assume(z3.ForAll(xs, f(*xs)) if n else f())
                    return c0
                def after():
                    Vis = lambda x: z3.BoolVal(True)
                    for n, f in invariant(rd, rv, c0, Vis, lambda z: [back(z)]).values():
                        xs = z3.Ints("x! y!")[:n]; eng.assume(z3.ForAll(xs, f(*xs)) if n else f())
                    return c0
                def c_end(v):
                    m = seen["map"]; cur = cut.cur
                    parts = invariant(m.dom, m.val, term(v), lambda x: x <= cur, lambda z: [back(z), cur])
                    for name, (n, f) in parts.items():
                        xs = [eng.int("any") for _ in range(n)]; eng.prove(f"loop invariant of {cut.label}: {name}: preserved", f(*xs))
                    return True
                return [CL.Role("map", "mapping so far", m_init, lambda: setm(rd, rv), lambda v: True, lambda: setm(rd, rv)), CL.Role("int", "candidate", lambda v: term(v) == start, mid, c_end, after)]
            eng.loop_roles = roles
            class Skip(CL.Cut):
                label = "search for an unused label"
                def roles(self):
                    def init(v): self.c0 = term(v); return True
                    def mid():
                        c = eng.int("cand"); eng.assume(c >= self.c0); eng.assume(z3.ForAll([x := z3.Int("x!")], z3.Implies(z3.And(self.c0 <= x, x < c), used(x)))); return c
                    def end(v): x = eng.int("any"); return z3.And(term(v) >= self.c0, z3.Implies(z3.And(self.c0 <= x, x < term(v)), used(x)))
                    return [CL.Role("int", "candidate", init, mid, end, mid)]
                def item(self): pass
            class Self: pass
            me = Self(); me.nodes = lambda: ISet(V)
            dup = {}
            def duplicates(m):
                if not (isinstance(m, I.IMap)): raise Unfit("duplicates of something else")
                class D2:
                    def __bool__(s):
                        def no(): x, y = eng.int("first"), eng.int("second"); eng.assume(z3.And(m.dom(x), m.dom(y), x != y, m.val(x) == m.val(y)))
                        return not eng.fork(lambda: eng.all(lambda x, y: z3.Implies(z3.And(m.dom(x), m.dom(y), m.val(x) == m.val(y)), x == y)), no)
                    def items(s): return []
                return D2()
            def srt(x):
                if not isinstance(x, ISet): raise Unfit("sorted")
                c = Sorted(x); c.eng = eng
                eng.prove_all("the nodes of the pattern are renumbered", lambda x: c.s.mem(x) == V(x)); return c
            fn = I.lift(Pattern.node_mapping, sorted=srt, _duplicates_in_mapping=duplicates)
            eng.whiles.update({"node_mapping/0": Skip})
            mapping = I.IMap(dm, vm) if with_map else None; kw = {}
            if with_av: kw["avoids"] = ISet(av)
            if with_pre: kw["preserves"] = ISet(pr)
            ok_keys = lambda x: z3.Implies(D(x), V(x)); ok_inj = lambda x, y: z3.Implies(z3.And(D(x), D(y), vm(x) == vm(y)), x == y)
            try: r = fn(me, mapping, start=ZI(start), **kw)
            except ValueError:
                eng.covered.add("rejected"); eng.prove("only inadmissible mappings are rejected", z3.Not(z3.And(z3.ForAll([x := z3.Int("x!")], ok_keys(x)), z3.ForAll([x, y := z3.Int("y!")], ok_inj(x, y))))); return
            eng.covered.add("accepted")
            if not isinstance(r, I.IMap): raise Unfit("result")
            eng.prove_all("keys of an accepted mapping are nodes", ok_keys); eng.prove_all("an accepted mapping is injective", ok_inj)
            eng.prove_all("every node that is not preserved has a label", lambda x: r.dom(x) == z3.Or(D(x), z3.And(V(x), z3.Not(R(x)))))
            eng.prove_all("the mapping extends the initial one", lambda x: z3.Implies(D(x), r.val(x) == vm(x)))
            eng.prove_all("the mapping is injective", lambda x, y: z3.Implies(z3.And(r.dom(x), r.dom(y), r.val(x) == r.val(y)), x == y))
            eng.prove_all("fresh labels are not avoided or preserved ones", lambda x: z3.Implies(z3.And(r.dom(x), z3.Not(D(x))), z3.And(z3.Not(A(r.val(x))), z3.Not(R(r.val(x))), r.val(x) >= start)))
            eng.prove_all("fresh labels are ascending", lambda x, y: z3.Implies(z3.And(r.dom(x), z3.Not(D(x)), r.dom(y), z3.Not(D(y)), x < y), r.val(x) < r.val(y)))
            b = lambda z: back(z)
            eng.prove_all("fresh labels are the first ones available", lambda x, z: z3.Implies(z3.And(r.dom(x), z3.Not(D(x)), start <= z, z < r.val(x)), z3.Or(used(z), z3.And(r.dom(b(z)), z3.Not(D(b(z))), r.val(b(z)) == z))))
        name = "node_mapping" + (", mapping" if with_map else "") + (", avoids" if with_av else "") + (", preserves" if with_pre else "")
        I.attempt(ob, name, h).close(["accepted", "iteration"] + (["rejected"] if with_map else []))

# -- composition of patterns -----------------------------------------------------------------------------------------
class Chunk:
    """one of the two command sequences"""
    def __init__(self, name): self.name = name
    def __iter__(self): yield self
    def gv_map(self, kind, cond, fn): return Truths()
    def gv_filter(self, kind, cond): raise Unfit("some of the commands")
    def gv_len(self): raise Unfit("number of commands")
    def __getattr__(self, a): raise Unfit(f"command sequence: {a}")
class Truths:
    """some values that depend on the commands"""
    def __iter__(self): raise Unfit("values computed from the commands")
def any_(x): return I.cur().choose() if isinstance(x, Truths) else any(x)
def all_(x): return I.cur().choose() if isinstance(x, Truths) else all(x)
class Warns:
    @staticmethod
    def warn(*a, **k): pass
class Stub:
    def __getattr__(self, a): raise Unfit(f"attribute {a}")
class Pairs:
    def __init__(self, a, b): self.a, self.b = a, b
    def __iter__(self): raise Unfit("pairs of ports")

def compare_seq(eng, name, got, want):
    """got, want: sequences of labels; same base sequences in the same order, same elements kept, same images"""
    if isinstance(got, list) and not got: got = I.ISeq([])
    if not isinstance(got, I.ISeq): raise Unfit(name)
    e = [g[0] for g in got.segs] == [w[0] for w in want.segs]
    eng.prove(f"{name}: those of the first pattern, then those of the second", e)
    if not e: return
    img = lambda f, x: x if f is None else f(x)
    for (b, k, f), (_, k2, f2) in zip(got.segs, want.segs):
        eng.prove_all(f"{name}: which ones", lambda x: z3.Implies(b.member(x), k(x) == k2(x)))
        eng.prove_all(f"{name}: labels", lambda x: z3.Implies(z3.And(b.member(x), k(x)), img(f, x) == img(f2, x)))

@P.proof("composition", [FP + "Pattern.compose"], "z3 (contracts of node_mapping, reindex)")
def composition(ob):
    """For every pair of patterns and every mapping: nodes V1, V2, ports, merged ports."""
    for preserve in (False, True):
        def h(eng):
            V1, V2, D, u = eng.pred("first"), eng.pred("second"), eng.pred("mapped"), eng.fun("image")
            base = {n: I.Base(n, eng.pred(n)) for n in ("inputs of the first", "outputs of the first", "inputs of the second", "outputs of the second")}
            I1, O1, I2, O2 = (b.member for b in base.values()); sq = {b.member: I.ISeq([(b, lambda x: z3.BoolVal(True), None)]) for b in base.values()}
            for p, q in ((I1, V1), (O1, V1), (I2, V2), (O2, V2)): eng.all(lambda x, p=p, q=q: z3.Implies(p(x), q(x)))
            x, y = z3.Ints("x! y!")
            cond = dict(keys=z3.ForAll([x], z3.Implies(D(x), V2(x))), distinct=z3.ForAll([x, y], z3.Implies(z3.And(D(x), D(y), u(x) == u(y)), x == y)),
                        measured=z3.ForAll([x], z3.Implies(z3.And(D(x), V1(u(x))), O1(u(x)))), ports=z3.ForAll([x], z3.Implies(z3.And(D(x), O1(u(x))), I2(x))))
            mapping = I.IMap(D, u); made, full = [], []
            me = Stub(); me.nodes = lambda: ISet(V1); one, two = Chunk("commands of the first"), Chunk("commands of the second")
            me._Pattern__seq, me._Pattern__input_nodes, me._Pattern__output_nodes = one, sq[I1], sq[O1]; me.input_nodes, me.output_nodes = sq[I1], sq[O1]
            state = dict(me.__dict__)
            class Other(Stub): __iter__ = lambda s: iter(two); gv_map = lambda s, *a: Truths()
            class Me(Stub): __iter__ = lambda s: iter(one); gv_map = lambda s, *a: Truths()
            me.__class__ = Me
            other = Other(); other.nodes = lambda: ISet(V2); other.input_nodes, other.output_nodes, other._Pattern__seq, other._Pattern__input_nodes, other._Pattern__output_nodes = sq[I2], sq[O2], two, sq[I2], sq[O2]
            other_state = lambda: {k: v for k, v in other.__dict__.items() if k not in ("node_mapping", "reindex")}
            def node_mapping(m=None, start=0, *, avoids=None, preserves=None):
                av = I.as_set(avoids).mem if avoids is not None else lambda x: z3.BoolVal(False); pr = I.as_set(preserves).mem if preserves is not None else lambda x: z3.BoolVal(False)
                if m is None: m = I.IMap(lambda x: z3.BoolVal(False), u)
                if not isinstance(m, I.IMap): raise Unfit("initial mapping")
                d, f, s0 = m.dom, m.val, term(start); eng.prove_all("initial mapping of the labels: nodes", lambda x: z3.Implies(d(x), V2(x))); eng.prove_all("initial mapping of the labels: injective", lambda x, y: z3.Implies(z3.And(d(x), d(y), f(x) == f(y)), x == y))
                F = eng.fun("complete"); dom = lambda x: z3.Or(d(x), z3.And(V2(x), z3.Not(pr(x)))); new = lambda x: z3.And(dom(x), z3.Not(d(x)))
                eng.all(lambda x: z3.Implies(d(x), F(x) == f(x))); eng.all(lambda x, y: z3.Implies(z3.And(dom(x), dom(y), F(x) == F(y)), x == y))
                eng.all(lambda x: z3.Implies(new(x), z3.And(F(x) >= s0, z3.Not(av(F(x))), z3.Not(pr(F(x)))))); eng.all(lambda x, y: z3.Implies(z3.And(new(x), new(y), x < y), F(x) < F(y)))
                r = I.IMap(dom, F, True); return r
            inv, partner = eng.fun("preimage"), eng.fun("corresponding output")
            eng.all(lambda x: z3.Implies(I2(x), O2(partner(x))))
            def reindex(m=None, *, copy=False):
                if not isinstance(m, I.IMap): raise Unfit("renumbering")
                eng.prove("the operand is not renumbered in place", copy is True)
                eng.prove_all("renumbering: every node", lambda x: z3.Implies(V2(x), m.dom(x))); eng.prove_all("renumbering: injective", lambda x, y: z3.Implies(z3.And(V2(x), V2(y), m.val(x) == m.val(y)), x == y))
                f = m.val; full.append((m.dom, f)); eng.all(lambda x: z3.Implies(V2(x), inv(f(x)) == x)); three = Chunk("renumbered commands of the second")
                class Re(Stub): __iter__ = lambda s: iter(three); gv_map = lambda s, *a: Truths(); gv_len = lambda s: three.gv_len()
                r = Re(); t = lambda x: z3.BoolVal(True)
                r.input_nodes, r.output_nodes = I.ISeq([(base["inputs of the second"], t, f)]), I.ISeq([(base["outputs of the second"], t, f)])
                r._Pattern__input_nodes, r._Pattern__output_nodes, r._Pattern__seq = r.input_nodes, r.output_nodes, three; r.f = f
                r.nodes = lambda: ISet(lambda x: z3.And(V2(inv(x)), f(inv(x)) == x)); return r
            other.node_mapping, other.reindex = node_mapping, reindex; before = other_state()
            class Each(CL.Cut):
                label = "loop over the mapping"
                def item(s): k = s.k = eng.int("key"); eng.assume(D(k)); return ZI(k), ZI(u(k))
                def completed(s): eng.covered.add("iteration"); eng.prove("an entry that is passed merges an output with an input", z3.Implies(O1(u(s.k)), I2(s.k)))
                def ended(s): eng.assume(cond["ports"])
            def contract_for(it):
                if isinstance(it, I.IItems) and it.m is mapping: c = Each(); c.eng = eng; return c
            eng.contract_for = contract_for
            num = {n: eng.int("number of " + n) for n in ("merged", "inputs", "outputs")}
            def what(a):
                if isinstance(a, I.ISeq) and len(a.segs) == 1 and a.segs[0][0].name in ("inputs of the second", "outputs of the second") and CL.valid(eng, z3.ForAll([x], z3.Implies(a.segs[0][0].member(x), a.segs[0][1](x)))): return num[a.segs[0][0].name.split()[0]]
                if isinstance(a, ISet) and CL.valid(eng, z3.ForAll([x], a.mem(x) == M(x))): return num["merged"]
                raise Unfit("size of another set")
            eng.sizes = lambda a, b: eng.decide(what(a) == what(b))
            M_in = lambda k: z3.And(D(k), O1(u(k)))
            M = lambda v: z3.And(O1(v), z3.Exists([y], z3.And(D(y), u(y) == v)))
            def zip_(*a, strict=False):
                if len(a) == 2 and all(isinstance(z, I.ISeq) for z in a) and [len(z.segs) for z in a] == [1, 1] and [z.segs[0][0].name for z in a] == ["inputs of the second", "outputs of the second"]:
                    if not (full and all(CL.valid(eng, z3.ForAll([x], z3.Implies(z.segs[0][0].member(x), z.segs[0][1](x)))) for z in a)): raise Unfit("pairs of ports")
                    if not CL.valid(eng, num["inputs"] == num["outputs"]): raise Unfit("different numbers of ports")
                    return Pairs(*a)
                if any(isinstance(z, I.ISeq) for z in a): raise Unfit("zip")
                return zip(*a, strict=strict)
            def mkdict(z=None):
                if isinstance(z, Pairs):
                    (b, _, f), (_, _, g) = z.a.segs[0], z.b.segs[0]; F = lambda t: t
                    f, g = f or F, g or F
                    def dom(v): w = inv(v); return z3.And(I2(w), f(w) == v)
                    if z.a.segs[0][2] is None: return I.IMap(lambda v: I2(v), lambda v: g(partner(v)))
                    return I.IMap(dom, lambda v: g(partner(inv(v))))
                return I.dict_(z)
            class DictT(metaclass=I._T): kinds = (I.IMap, dict); make = staticmethod(mkdict)
            def Pat(*, input_nodes=None, output_nodes=None, cmds=None): made.append((input_nodes, output_nodes, cmds)); return made[-1]
            fn = I.lift(Pattern.compose, any=any_, all=all_, warnings=Warns, zip=zip_, dict=DictT, Pattern=Pat)
            ok = z3.And(*cond.values())
            try: r = fn(me, other, mapping, preserve_mapping=preserve)
            except PatternError: eng.covered.add("rejected"); eng.prove("only mappings outside the documented conditions are rejected", z3.Not(ok)); return
            eng.covered.add("accepted")
            for n, c in cond.items(): eng.prove(f"accepted mappings satisfy the documented conditions: {n}", c)
            if not (isinstance(r, tuple) and len(r) == 2 and len(made) == 1 and r[0] is made[0] and isinstance(r[1], I.IMap)): raise Unfit("result")
            eng.prove("the first operand is not modified", {k: v for k, v in me.__dict__.items() if k in state} == state); now = other_state(); eng.prove("the second operand is not modified", now.keys() == before.keys() and all(now[k] is before[k] for k in now))
            c = r[1]; F = c.val
            eng.prove_all("complete mapping: the nodes of the second pattern", lambda x: c.dom(x) == V2(x)); eng.prove_all("complete mapping: extends the given one", lambda x: z3.Implies(D(x), F(x) == u(x)))
            eng.prove_all("complete mapping: injective", lambda x, y: z3.Implies(z3.And(V2(x), V2(y), F(x) == F(y)), x == y))
            eng.prove_all("complete mapping: unrelated nodes are not identified", lambda x: z3.Implies(z3.And(V2(x), V1(F(x))), z3.And(D(x), O1(F(x)), I2(x))))
            eng.prove_all("complete mapping: new labels ascend", lambda x, y: z3.Implies(z3.And(V2(x), V2(y), z3.Not(D(x)), z3.Not(D(y)), x < y), F(x) < F(y)))
            ins, outs, cmds = made[0]; t = lambda x: z3.BoolVal(True); nm = list(base.values())
            compare_seq(eng, "inputs", ins, I.ISeq([(nm[0], t, None), (nm[2], lambda x: z3.Not(z3.And(D(x), O1(u(x)))), F)]))
            same = CL.valid(eng, z3.And(num["merged"] == num["inputs"], num["inputs"] == num["outputs"]))
            if preserve and same:
                eng.covered.add("order preserved")      # as many merged outputs as inputs: every input is merged (a finite set)
                eng.all(lambda x: z3.Implies(I2(x), M_in(x)))
                w = eng.fun("input merged with"); eng.all(lambda v: z3.Implies(M(v), z3.And(D(w(v)), u(w(v)) == v)))
                compare_seq(eng, "outputs", outs, I.ISeq([(nm[1], t, lambda v: z3.If(M(v), F(partner(w(v))), v))]))
            else: compare_seq(eng, "outputs", outs, I.ISeq([(nm[1], lambda v: z3.Not(M(v)), None), (nm[3], t, F)]))
            if not (isinstance(cmds, list) and all(isinstance(q, Chunk) for q in cmds)): raise Unfit("commands")
            eng.prove("commands: those of the first pattern, then the renumbered ones of the second", [q.name for q in cmds] == ["commands of the first", "renumbered commands of the second"])
            for d, f in full: eng.prove_all("the commands are renumbered by the complete mapping", lambda x: z3.Implies(V2(x), f(x) == F(x)))
        I.attempt(ob, "compose" + (", order preserved" if preserve else ""), h).close(["accepted", "rejected", "iteration"] + (["order preserved"] if preserve else []))

def contract(a, ins1, outs1, b, ins2, outs2, merge):
    """Map of `first a then b`: outputs (outs1 not merged + outs2), inputs (ins1 + ins2 not merged).  merge: node of ins2 -> node of outs1."""
    A = a.reshape((2,) * (len(outs1) + len(ins1))); B = b.reshape((2,) * (len(outs2) + len(ins2)))
    lab = {}; new = iter(range(200))
    la = [lab.setdefault(("o1", v), next(new)) for v in outs1] + [lab.setdefault(("i1", v), next(new)) for v in ins1]
    lb = [lab.setdefault(("o2", v), next(new)) for v in outs2] + [lab[("o1", merge[v])] if v in merge else lab.setdefault(("i2", v), next(new)) for v in ins2]
    used = set(merge.values())
    out = [lab[("o1", v)] for v in outs1 if v not in used] + [lab[("o2", v)] for v in outs2]
    inn = [lab[("i1", v)] for v in ins1] + [lab[("i2", v)] for v in ins2 if v not in merge]
    return np.einsum(A, la, B, lb, out + inn).reshape(2 ** len(out), 2 ** len(inn))

def disjoint(q, base): return q.reindex({v: v + base for v in q.nodes()}, copy=True)

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.choice([0, 1, 2, 3, 4, 5]), lambda r: r.choice([0, 1, 2, 3, 4, 5]))

@P.bounded("patterns", [FP + "Pattern.compose", FP + "Pattern.node_mapping", FP + "Pattern.reindex", FP + "_duplicates_in_mapping", FP + "_reverse_mapping"], cases, "two random patterns up to 5 nodes, random mappings", quick=10, thorough=120)
def pats(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    p1 = G.pattern(r, n1) if n1 else Pattern(); p2 = G.pattern(r, n2) if n2 else Pattern()
    v1, v2 = p1.nodes(), p2.nodes(); o1 = list(p1.output_nodes); i2 = list(p2.input_nodes)
    k = r.randrange(min(len(o1), len(i2)) + 1)
    if r.random() < .4: k = min(len(o1), len(i2))
    merge = dict(zip(r.sample(i2, k), r.sample(o1, k)))
    mapping = dict(merge)
    free = [v for v in sorted(v2) if v not in merge and r.random() < .4]
    pool = [x for x in range(60) if x not in v1]
    mapping.update(zip(free, r.sample(pool, len(free))))
    items = list(mapping.items()); r.shuffle(items); mapping = dict(items)
    pm = r.random() < .5
    s1, s2, sm = repr(p1), repr(p2), dict(mapping)
    q, full = p1.compose(p2, mapping, preserve_mapping=pm)
    assert repr(p1) == s1 and repr(p2) == s2 and mapping == sm, "an operand is modified"
    d = lambda: f"{p1} with {p2} along {mapping}, preserve_mapping={pm}: {q} {full}"
    assert set(full) == v2 and all(full[a] == b for a, b in mapping.items()), f"complete mapping; {d()}"
    assert len(set(full.values())) == len(full) and set(full.values()) & v1 == set(merge.values()), f"unrelated nodes are identified; {d()}"
    rest = [v for v in sorted(v2) if v not in mapping]
    assert [full[v] for v in rest] == sorted(full[v] for v in rest), f"fresh labels are not ascending; {d()}"
    ins = list(p1.input_nodes) + [full[v] for v in i2 if v not in merge]
    outs = [v for v in o1 if v not in set(merge.values())] + [full[v] for v in p2.output_nodes]
    if pm and len(merge) == len(i2) == len(p2.output_nodes):
        io = {merge[a]: full[b] for a, b in zip(i2, p2.output_nodes)}
        outs2 = [io.get(v, v) for v in o1]
    else: outs2 = outs
    assert q.input_nodes == ins and q.output_nodes == outs2, f"ports {q.input_nodes} {q.output_nodes} instead of {ins} {outs2}; {d()}"
    q.check_runnability()
    m1, m2 = psim.measured(p1), psim.measured(p2)
    for _ in range(3):
        oa = {v: r.randrange(2) for v in m1}; ob = {v: r.randrange(2) for v in m2}
        A, _x = psim.branch(p1, oa); B, _y = psim.branch(p2, ob)
        want = contract(A, list(p1.input_nodes), o1, B, i2, list(p2.output_nodes), merge)
        got, _z = psim.branch(q, {**oa, **{full[v]: b for v, b in ob.items()}})
        if outs2 != outs:
            pos = [outs.index(v) for v in outs2]
            want = np.transpose(want.reshape((2,) * len(outs) + (-1,)), [*pos, len(pos)]).reshape(want.shape)
        assert M.phase_equal(got, want), f"the action is not the composition (outcomes {oa} {ob}); {d()}"

@P.bounded("invalid pattern mappings", [FP + "Pattern.compose"], cases, "mappings violating one of the documented conditions", quick=3, thorough=30)
def invalid(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    p1 = G.pattern(r, max(n1, 1)); p2 = G.pattern(r, max(n2, 1))
    v1, v2 = p1.nodes(), p2.nodes(); o1 = set(p1.output_nodes); i2 = set(p2.input_nodes)
    pool1 = sorted(v1) + [70, 71, 72]; pool2 = sorted(v2) + ([80] if r.random() < .3 else [])
    k = r.randrange(1, len(pool2) + 1)
    m = {a: r.choice(pool1) for a in r.sample(pool2, k)}
    ok = set(m) <= v2 and len(set(m.values())) == len(m) and not set(m.values()) & (v1 - o1) and all(a in i2 for a, b in m.items() if b in o1)
    s1, s2 = repr(p1), repr(p2)
    try: p1.compose(p2, m); got = True
    except PatternError: got = False
    assert got == ok, f"mapping {m} is {'accepted' if got else 'rejected'}; {p1} with {p2}"
    assert repr(p1) == s1 and repr(p2) == s2

@P.bounded("node mappings", [FP + "Pattern.node_mapping"], cases, "random partial mappings", quick=2, thorough=20)
def nm(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    p = G.pattern(r, n1) if n1 else Pattern(); v = p.nodes()
    part = {a: r.randrange(12) for a in v if r.random() < .3} if r.random() < .6 else None
    if part is not None and r.random() < .1: part[99] = 50
    start = r.randrange(4); avoids = r.choice([None, [], {r.randrange(8) for _ in range(3)}]); pres = r.choice([None, set(), [a for a in v if r.random() < .3 and a not in (part or {})]])
    kw = {k: x for k, x in (("avoids", avoids), ("preserves", pres)) if x is not None}
    bad = part is not None and (99 in part or len(set(part.values())) < len(part))
    try: m = p.node_mapping(part, start=start, **kw)
    except ValueError:
        assert bad, f"{part} is rejected"; return
    assert not bad, f"{part} is accepted"
    pre = set(pres or ())
    assert set(m) == (v - pre) | set(part or {}), f"domain {set(m)}"
    assert all(m[a] == b for a, b in (part or {}).items())
    fresh = [m[a] for a in sorted(v) if a not in (part or {}) and a not in pre]
    assert len(set(m.values())) == len(m) and not set(fresh) & (set(avoids or ()) | pre), f"{m}"
    want = []; c = start; usedv = set(avoids or ()) | pre | set((part or {}).values())
    for _ in fresh:
        while c in usedv: c += 1
        want.append(c); c += 1
    assert fresh == want, f"fresh labels {fresh} instead of {want}"

def ogmap(og):
    u = psim.opengraph_map(og); k = len(og.output_nodes)
    for i, v in enumerate(og.output_nodes):
        if v in og.output_cliffords:
            t = u.reshape((2,) * k + (-1,))
            u = np.moveaxis(np.tensordot(psim.clifford_matrix(og.output_cliffords[v]), t, axes=(1, i)), 0, i).reshape(2 ** k, -1)
    return u

def rand_og(r, n, n_in=None, cl=.3):
    if n == 0: return OpenGraph(nx.Graph(), [], [], {})
    og = G.opengraph(r, n, G.measurement if r.random() < .6 else G.bloch, r.randrange(0, min(n, 3) + 1), r.randrange(0, min(n, 3) + 1))
    return OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {v: Clifford(r.randrange(24)) for v in og.output_nodes if r.random() < cl})

def snapshot(og): return repr((sorted(og.graph.nodes), sorted(map(sorted, og.graph.edges)), list(og.input_nodes), list(og.output_nodes), dict(og.measurements), dict(og.output_cliffords)))

@P.bounded("open graphs in sequence", [FOG + "OpenGraph.compose"], cases, "two open graphs up to 5 nodes, outputs of the first merged with inputs of the second", quick=8, thorough=100)
def seq(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    a = rand_og(r, n1, cl=r.choice([0, .4])); b = rand_og(r, n2, cl=r.choice([0, .4]))
    o1, i2 = list(a.output_nodes), list(b.input_nodes)
    k = r.randrange(min(len(o1), len(i2)) + 1)
    merge = dict(zip(r.sample(i2, k), r.sample(o1, k)))
    mapping = dict(merge); v1, v2 = set(a.graph), set(b.graph)
    free = [v for v in sorted(v2) if v not in merge and r.random() < .4]
    mapping.update(zip(free, r.sample([x for x in range(60) if x not in v1], len(free))))
    sa, sb, sm = snapshot(a), snapshot(b), dict(mapping)
    q, full = a.compose(b, mapping)
    assert snapshot(a) == sa and snapshot(b) == sb and mapping == sm, "an operand is modified"
    d = lambda: f"{snapshot(a)} with {sb} along {mapping}: {snapshot(q)} {full}"
    assert set(full) == v2 and all(full[x] == y for x, y in mapping.items()) and len(set(full.values())) == len(full), f"complete mapping; {d()}"
    assert set(full.values()) & v1 == set(merge.values()), f"unrelated nodes are identified; {d()}"
    rest = [v for v in sorted(v2) if v not in mapping]
    assert [full[v] for v in rest] == sorted(full[v] for v in rest)
    both = [u for v, u in merge.items()]
    outs = [v for v in o1 if v not in both or v in {full[x] for x in b.output_nodes}] + [full[x] for x in b.output_nodes if full[x] not in both]
    ins = [v for v in a.input_nodes if v not in both or v in {full[x] for x in b.input_nodes}] + [full[x] for x in i2 if full[x] not in both]
    assert list(q.output_nodes) == outs and list(q.input_nodes) == ins, f"ports {q.input_nodes} {q.output_nodes} instead of {ins} {outs}; {d()}"
    A, B = ogmap(a), ogmap(b)
    want = contract(A, list(a.input_nodes), o1, B, i2, list(b.output_nodes), merge)
    nat = [v for v in o1 if v not in both] + [full[x] for x in b.output_nodes]
    pos = [nat.index(v) for v in outs]
    want = np.transpose(want.reshape((2,) * len(nat) + (-1,)), [*pos, len(pos)]).reshape(want.shape)
    nat_in = list(a.input_nodes) + [full[x] for x in i2 if x not in merge]
    assert sorted(nat_in) == sorted(ins)
    pos = [nat_in.index(v) for v in ins]
    want = np.transpose(want.reshape((-1,) + (2,) * len(nat_in)), [0, *[1 + p for p in pos]]).reshape(want.shape)
    got = ogmap(q)
    if not M.phase_equal(got, want):
        early = [v for v, u in merge.items() if a.output_cliffords.get(u, Clifford.I) != Clifford.I and list(b.graph.neighbors(v))]
        dup = [e for e in b.graph.edges if e[0] in merge and e[1] in merge and a.graph.has_edge(merge[e[0]], merge[e[1]])]
        key = "clifford-before-entanglement: " if early else "edge-in-both-graphs: " if dup else ""
        raise AssertionError(f"{key}the action is not the composition; {d()}")

@P.bounded("open graphs in general", [FOG + "OpenGraph.compose"], cases, "arbitrary mappings between open graphs up to 5 nodes: graph, ports, measurements, output Cliffords, rejections", quick=6, thorough=60)
def general(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    ms = [Measurement.XY(.25), Measurement.X, Measurement.Z]
    a, b = rand_og(r, n1), rand_og(r, n2)
    if r.random() < .6:
        few = lambda og: OpenGraph(og.graph, og.input_nodes, og.output_nodes, {v: r.choice(ms[:2]) for v in og.measurements}, og.output_cliffords)
        a, b = few(a), few(b)
    v1, v2 = sorted(a.graph), sorted(b.graph)
    keys = [v for v in v2 if r.random() < .6]
    pool = v1 + [70, 71, 72, 73, 74]
    u = r.random()
    mapping = dict(zip(keys, r.sample(pool, len(keys)))) if u < .85 else {v: r.choice(pool) for v in keys}
    if r.random() < .05: mapping[99] = 98
    conflict = any(a.measurements.get(u) is not None and b.measurements.get(v) is not None and a.measurements[u] != b.measurements[v] for v, u in mapping.items())
    bad = 99 in mapping or len(set(mapping.values())) < len(mapping)
    sa, sb = snapshot(a), snapshot(b)
    try: q, full = a.compose(b, mapping); got = True
    except (ValueError, OpenGraphError): got = False
    assert snapshot(a) == sa and snapshot(b) == sb, "an operand is modified"
    assert got == (not bad and not conflict), f"mapping {mapping} {'accepted' if got else 'rejected'}; {sa} {sb}"
    if not got: return
    d = lambda: f"{sa} with {sb} along {mapping}: {snapshot(q)} {full}"
    s1 = set(v1); m = set(mapping.values()) & s1
    assert set(full) == set(v2) and all(full[x] == y for x, y in mapping.items()) and len(set(full.values())) == len(full) and set(full.values()) & s1 == m, d()
    assert set(q.graph) == s1 | set(full.values()), d()
    assert {frozenset(e) for e in q.graph.edges} == {frozenset(e) for e in a.graph.edges} | {frozenset(full[x] for x in e) for e in b.graph.edges}, d()
    for got_, p1, p2 in ((q.input_nodes, a.input_nodes, b.input_nodes), (q.output_nodes, a.output_nodes, b.output_nodes)):
        p2 = [full[x] for x in p2]
        assert list(got_) == [v for v in p1 if v not in m or v in p2] + [v for v in p2 if v not in m], f"ports; {d()}"
    inv = {y: x for x, y in full.items()}
    for v in q.graph:
        m1, m2 = a.measurements.get(v), b.measurements.get(inv.get(v)); c1, c2 = a.output_cliffords.get(v), b.output_cliffords.get(inv.get(v))
        inb = v in inv; ina = v in s1
        if v in q.output_nodes:
            c = (c2 or Clifford.I) @ (c1 or Clifford.I)
            assert q.output_cliffords.get(v, Clifford.I) == c and v not in q.measurements, f"node {v}: Clifford; {d()}"
        else:
            assert v not in q.output_cliffords
            want = m1 if m2 is None else m2
            if m1 is None and c1 is not None: want = m2.clifford(c1)
            if m2 is None and c2 is not None: want = m1.clifford(c2)
            assert q.measurements[v] == want, f"node {v}: measurement {q.measurements[v]} instead of {want}; {d()}"

@P.proof("comparison", [FOG + "OpenGraph.is_equal_structurally", FOG + "OpenGraph.isclose"], "all verdicts of the parts (opaque contents), measurements up to three nodes")
def comparison(ob):
    """Structural equality is the conjunction of the equality of graphs (contract of networkx), of both orders, and of the output Cliffords; closeness adds the closeness of
    the measurements node by node, within the tolerances given."""
    class Tok:
        def __init__(self, n): self.n = n
        def __eq__(self, o): return isinstance(o, Tok) and self.n == o.n
        __hash__ = None
    class NX:
        class utils: graphs_equal = staticmethod(lambda a, b: isinstance(a, Tok) and a == b)
    ns = types.SimpleNamespace; names = ("graph", "input_nodes", "output_nodes", "output_cliffords")
    eq = X.rebind(need(OpenGraph, "is_equal_structurally"), nx=NX); close = X.rebind(need(OpenGraph, "isclose"), nx=NX)
    for same in itertools.product((True, False), repeat=4):
        mk = lambda k: ns(**{n: Tok((n, k if not s else 0)) for n, s in zip(names, same)}, measurements={})
        a, b = mk(1), mk(2)
        for x in (a, b): x.is_equal_structurally = lambda o, x=x: eq(x, o)
        try: ok = eq(a, b) is all(same) and eq(b, a) is all(same)
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"structural equality, {[n for n, s in zip(names, same) if not s]} different", ok)
        for k in range(4):
            for good in itertools.product((True, False), repeat=k):
                for tol in ({}, dict(rel_tol="r", abs_tol="t")):
                    asked = []
                    class Mes:
                        def __init__(self, v, g): self.v, self.g = v, g
                        def isclose(self, o, rel_tol=1e-9, abs_tol=0.0): asked.append((o.v == self.v, rel_tol, abs_tol)); return self.g
                    a.measurements = {v: Mes(v, g) for v, g in enumerate(good)}; b.measurements = {v: Mes(v, g) for v, g in reversed(list(enumerate(good)))}
                    try: ok = bool(close(a, b, **tol)) is (all(same) and all(good)) and all(x == (True, *(tol.values() or (1e-9, 0.0))) for x in asked)
                    except Exception: ok = False      # noqa: BLE001
                    ob.structural(f"closeness, {[n for n, s in zip(names, same) if not s]} different, measurements {good}, {tol}", ok)

@P.proof("values taken twice", [FP + "_reverse_mapping", FP + "_duplicates_in_mapping"], "one step from every kind of state; every mapping of at most six keys up to renaming")
def taken_twice(ob):
    import graphix.pattern as pat
    rev, dup = need(pat, "_reverse_mapping"), need(pat, "_duplicates_in_mapping")
    parts = [[]]
    for n in range(1, 7):
        parts = [p + [c] for p in parts for c in range(max(p, default=-1) + 2)]
        for p in parts:
            ks = [("key", i) for i in range(n)]; m = {k: ("value", c) for k, c in zip(ks, p)}; want = {}
            for k in ks: want.setdefault(m[k], []).append(k)
            try: r, d = rev(dict(m)), dup(dict(m))
            except Exception: r = d = None      # noqa: BLE001
            norm = lambda x: None if x is None else {a: sorted(b) for a, b in x.items()}
            ob.check(f"{p}: the keys of each value", norm(r) == norm(want), None if norm(r) == norm(want) else dict(mapping=repr(m), got=repr(r)))
            w2 = {a: b for a, b in want.items() if len(b) > 1}
            ob.check(f"{p}: the values taken twice with their keys", norm(d) == norm(w2), None if norm(d) == norm(w2) else dict(mapping=repr(m), got=repr(d)))
    ob.check("the empty mapping", rev({}) == {} and dup({}) == {})
    class Val:      # opaque: compared by identity
        pass
    from gv import loops
    v, w = Val(), Val()
    for present in (False, True):
        try:
            old = ["earlier"]; res = {w: ["other"], **({v: old} if present else {})}
            d = loops.step(rev, 0)(("k", v), result=res)
            ok = d["__exit__"] == "next" and res == {w: ["other"], v: (["earlier"] if present else []) + ["k"]}
        except Exception: ok = False      # noqa: BLE001
        ob.structural(f"one step, value {'met before' if present else 'new'}: its key joins the keys of its value, the others keep theirs", ok)

@P.bounded("structural equality", [FOG + "OpenGraph.is_equal_structurally", FOG + "OpenGraph.isclose", FOG + "OpenGraph.neighbors", FOG + "OpenGraph.odd_neighbors"], cases, "open graphs and copies with one difference", quick=2, thorough=20)
def struct(case):
    seed, n1, n2 = case
    r = random.Random(seed)
    a = rand_og(r, max(1, n1)); nodes = sorted(a.graph)
    g = nx.Graph(); ns = nodes[:]; r.shuffle(ns); g.add_nodes_from(ns); es = [(y, x) for x, y in a.graph.edges]; r.shuffle(es); g.add_edges_from(es)
    ins, outs = list(a.input_nodes), list(a.output_nodes); ms = dict(a.measurements); cl = dict(a.output_cliffords)
    u = r.randrange(7); same_struct = same = True
    if u == 0 and len(nodes) > 1:
        x, y = r.sample(nodes, 2); same_struct = False
        if g.has_edge(x, y): g.remove_edge(x, y)
        else: g.add_edge(x, y)
    elif u == 1 and len(ins) > 1: ins = ins[1:] + ins[:1]; same_struct = False
    elif u == 2 and len(outs) > 1: outs = outs[1:] + outs[:1]; same_struct = False
    elif u == 3 and ms: v = r.choice(sorted(ms)); new = r.choice([Measurement.XY(.31), Measurement.Y, Measurement.XZ(.2)]); same = ms[v] == new or ms[v].isclose(new); ms[v] = new
    elif u == 4 and outs: v = r.choice(outs); new = Clifford(r.randrange(24)); same_struct = cl.get(v) == new; cl[v] = new
    elif u == 5: g.add_node(77); outs.append(77); same_struct = False
    b = OpenGraph(g, tuple(ins) if isinstance(a.input_nodes, tuple) else ins, tuple(outs) if isinstance(a.output_nodes, tuple) else outs, ms, cl)
    assert a.is_equal_structurally(b) == same_struct == b.is_equal_structurally(a), f"{snapshot(a)} {snapshot(b)}"
    if same_struct: assert a.isclose(b) == same
    else: assert not a.isclose(b)
    for _ in range(3):
        s = [v for v in nodes if r.random() < .5]; nb = [set(a.graph.neighbors(v)) for v in s]; odd = set()
        for x in nb: odd ^= x
        assert a.neighbors(s) == set().union(*nb) and a.odd_neighbors(s) == odd

@P.bounded("witnesses of the listed findings", [FOG + "OpenGraph.compose"], lambda rng, tier: iter([["clifford"], ["edge"]]), "two fixed compositions", quick=5, thorough=5)
def witnesses(case):
    g = nx.Graph([(0, 1)])
    if case[0] == "clifford":     # an H on output 0, then CZ(0, 1)
        e = nx.Graph(); e.add_node(0)
        a = OpenGraph(e, [0], [0], {}, {0: Clifford.H}); b = OpenGraph(g, [0], [1], {0: Measurement.XY(.25)})
        key = "clifford-before-entanglement"
    else:                         # CZ after CZ
        a = OpenGraph(g, [0, 1], [0, 1], {}); b = OpenGraph(g, [0, 1], [0, 1], {})
        key = "edge-in-both-graphs"
    q, full = a.compose(b, {v: v for v in b.input_nodes})
    want = contract(ogmap(a), list(a.input_nodes), list(a.output_nodes), ogmap(b), list(b.input_nodes), list(b.output_nodes), {v: v for v in b.input_nodes})
    assert M.phase_equal(ogmap(q), want), f"{key}: {snapshot(a)} with {snapshot(b)} gives {snapshot(q)}"

class Opaque:
    """A measurement or a Clifford gate."""
    def __init__(self, *e): self.e = e
    def __eq__(self, o): return isinstance(o, Opaque) and self.e == o.e
    def __hash__(self): return hash(self.e)
    def __repr__(self): return repr(self.e)
    def __bool__(self): raise Unfit("truth value of an opaque object")
    def clifford(self, c): return Opaque("measured after", self, c)
    def __matmul__(self, o): return Opaque("product", self, o)

@P.proof("composition of open graphs, one merged node", [FOG + "OpenGraph.compose"], "evaluation: opaque measurements and gates, every role of the merged and of the other nodes")
def og_compose_unit(ob):
    """What happens to a node depends on its roles in the two graphs only: every pair of roles of the merged node, next to a node of either graph
    that is not merged, again in every role."""
    from gv.extract import rebind
    from graphix import opengraph as gog
    roles = [(i, o) for i in (False, True) for o in ("measured", "output", "output with gate")]
    def part(prefix, nodes, edges, close):
        g = nx.Graph(); g.add_nodes_from(nodes); g.add_edges_from(edges); ms = {}; cs = {}
        for n, (i, o) in nodes.items():
            if o == "measured":
                ms[n] = m = Opaque(prefix, "measurement", n); m.isclose = lambda other, *a, **k: close
            if o == "output with gate": cs[n] = Opaque(prefix, "gate", n)
        return types.SimpleNamespace(graph=g, input_nodes=[n for n, r in nodes.items() if r[0]], output_nodes=[n for n, r in nodes.items() if r[1] != "measured"], measurements=ms, output_cliffords=cs)
    I = Opaque("identity")
    def times(a, b): return a if b == I else b if a == I else Opaque("product", a, b)
    for where in ("merged", "renamed", "fresh"):
        for ru, rv in itertools.product(roles, repeat=2):
            for rest in [(r, roles[(i + 2) % 6]) for i, r in enumerate(roles)]:
                for close in ((False, True) if ru[1] == rv[1] == "measured" and where == "merged" else (True,)):
                    A = part("first", {4: ru, 2: rest[0]}, [(2, 4)], close); B = part("second", {2: rv, 1: rest[1]}, [(1, 2)], close)
                    mp = {"merged": {2: 4}, "renamed": {2: 7}, "fresh": {}}[where]; full = {"merged": {2: 4, 1: 5}, "renamed": {2: 7, 1: 8}, "fresh": {1: 5, 2: 6}}[where]
                    tag = f"{where}: {ru} with {rv}, others {rest}, close={close}"
                    snap = [(list(x.graph.edges), list(x.graph.nodes), list(x.input_nodes), list(x.output_nodes), dict(x.measurements), dict(x.output_cliffords)) for x in (A, B)]
                    made = []
                    def mk(*a, **k): made.append({**dict(zip(("graph", "input_nodes", "output_nodes", "measurements", "output_cliffords"), a)), **k}); return "made"
                    class CI: pass
                    CI.I = I
                    try: got = rebind(gog.OpenGraph.compose, OpenGraph=mk, Clifford=CI)(A, B, mp)
                    except gog.OpenGraphError: ob.structural(f"{tag}: refused only for different measurements", not close and not made); continue
                    ob.structural(f"{tag}: the graphs are not changed", snap == [(list(x.graph.edges), list(x.graph.nodes), list(x.input_nodes), list(x.output_nodes), dict(x.measurements), dict(x.output_cliffords)) for x in (A, B)])
                    if not close or got[0] != "made" or len(made) != 1: ob.structural(f"{tag}: accepted", False); continue
                    r = made[0]; m = lambda n: full[n]; both = where == "merged"
                    ob.structural(f"{tag}: complete mapping", got[1] == full)
                    ob.structural(f"{tag}: nodes and edges of both", set(r["graph"].nodes) == {4, 2, *full.values()} and {frozenset(e) for e in r["graph"].edges} == {frozenset({2, 4}), frozenset({m(1), m(2)})})
                    def ports(p, q, a, b):
                        out = [n for n in p if not (both and n == 4) or 2 in q]
                        return out + [m(n) for n in q if not (both and n == 2)]
                    ob.structural(f"{tag}: ports: those of the first, then those of the second; of the merged node if it is one in both", list(r["input_nodes"]) == ports(A.input_nodes, B.input_nodes, 0, 0) and list(r["output_nodes"]) == ports(A.output_nodes, B.output_nodes, 0, 0))
                    want = {**A.measurements, **{m(n): x for n, x in B.measurements.items()}}; alt = dict(want)
                    if both:
                        if 4 in A.measurements and 2 in B.measurements: alt[4] = A.measurements[4]
                        elif 4 in A.measurements and 2 in B.output_cliffords: want[4] = alt[4] = A.measurements[4].clifford(B.output_cliffords[2])
                        elif 2 in B.measurements and 4 in A.output_cliffords: want[4] = alt[4] = B.measurements[2].clifford(A.output_cliffords[4])
                    ob.structural(f"{tag}: measurements, after the gate of the other graph", r["measurements"] in (want, alt))
                    outs = set(r["output_nodes"]); gates = {n: c for n, c in A.output_cliffords.items() if n in outs}
                    for n, c in B.output_cliffords.items():
                        if m(n) in outs: gates[m(n)] = times(c, gates[m(n)]) if m(n) in gates else c
                    norm = lambda d: {n: (c.e[1] if c.e[0] == "product" and c.e[2] == I else c) for n, c in d.items()}
                    ob.structural(f"{tag}: gates of the outputs, that of the first graph first", norm(r["output_cliffords"]) == gates)
    for bad in ({9: 1}, {2: 4, 1: 4}):
        A = part("first", {4: roles[0]}, [], True); B = part("second", {2: roles[0], 1: roles[0]}, [], True)
        try: rebind(gog.OpenGraph.compose, OpenGraph=lambda *a: None)(A, B, bad); ok = False
        except ValueError: ok = True
        ob.structural(f"mapping {bad}: refused", ok)
