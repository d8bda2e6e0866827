"""Loops of lifted functions cut by their contracts, whatever their local variables are called.

`lift(fn, **env)` is `gv.fsets.lift` except that every loop over a stand-in that carries a contract (`Cut`) and every
`while` loop (contract: `eng.whiles[k]`, k-th in source order) is executed as: the state on entry satisfies the contract,
then either one arbitrary iteration from an arbitrary state that satisfies it (which must be re-established), or the code
after the loop from the state of the contract at the end.  The state consists of the mutable sets alive and of the local
variables assigned in the body; they are matched with the roles of the contract by kind, in the order they were created
(`eng.role_order` permutes them).  A variable without a role has no value after, or at the start of, an iteration.
"""
from __future__ import annotations
import ast, itertools
from . import boot, fsets as F, sym
from .core import Unfit
from .fsets import B, FEngine, FMap, FSet, I, Infeasible, Lab, Lbl, PathEnd, SBool, cur
z3 = boot.z3()

class ZI:
    """An arbitrary integer."""
    def __init__(self, e): self.e = e if isinstance(e, z3.ExprRef) else z3.IntVal(int(e))
    @staticmethod
    def of(o):
        if isinstance(o, ZI): return o.e
        if isinstance(o, int) and not isinstance(o, bool): return z3.IntVal(o)
        raise Unfit(f"integer expected, got {o!r}")
    def __add__(self, o): return ZI(self.e + ZI.of(o))
    def __sub__(self, o): return ZI(self.e - ZI.of(o))
    def __radd__(self, o): return ZI(ZI.of(o) + self.e)
    def __rsub__(self, o): return ZI(ZI.of(o) - self.e)
    def __neg__(self): return ZI(-self.e)
    def __mul__(self, o): return ZI(self.e * ZI.of(o))
    __rmul__ = __mul__
    def __eq__(self, o): return SBool(self.e == ZI.of(o)) if isinstance(o, (int, ZI)) else False
    def __ne__(self, o): return SBool(self.e != ZI.of(o)) if isinstance(o, (int, ZI)) else True
    def __lt__(self, o): return SBool(self.e < ZI.of(o))
    def __le__(self, o): return SBool(self.e <= ZI.of(o))
    def __gt__(self, o): return SBool(self.e > ZI.of(o))
    def __ge__(self, o): return SBool(self.e >= ZI.of(o))
    def __bool__(self): return cur().decide(self.e != 0)
    def __hash__(self): raise Unfit("a symbolic integer is hashed")
    def __index__(self): raise Unfit("a symbolic integer is used as an index")
    __int__ = __index__

class GList:
    gv_kind = "list"
    """A list built by a loop: an arbitrary beginning, then the items appended since."""
    def __init__(self, items=(), prefix=None):
        self.prefix, self.items, self.ver = prefix, list(items), 0
        cur().lists.append(self)
    def append(self, x): self.items.append(x); self.ver += 1
    def extend(self, xs): self.items.extend(xs); self.ver += 1
    def __bool__(self):
        if self.items: return True
        if self.prefix is None: return False
        raise Unfit("emptiness of a list")
    def _no(self, *a, **k): raise Unfit("operation on a list that is being built")
    __iter__ = __len__ = __getitem__ = __contains__ = __add__ = __iadd__ = __eq__ = pop = insert = sort = remove = index = _no
    __hash__ = None
    def __getattr__(self, a): raise Unfit(f"list operation {a}")

class Role:
    """One component of the state of a loop.  kind: set | int | list | map.  init(v), end(v): formula (or bool) about the component
    before the loop and at the end of an iteration; mid(), after(): content at the start of an arbitrary iteration and after the
    loop (set: predicate, int: z3 term, list: token for its beginning, map: function that changes the map)."""
    def __init__(self, kind, name, init, mid, end, after):
        self.kind, self.name, self.init, self.mid, self.end, self.after = kind, name, init, mid, end, after

def same(f, g):
    """for set roles: the predicate of the set equals g"""
    return lambda v: v.mem(f) == g(f)

def kind_of(v):
    if isinstance(v, bool): return None
    if isinstance(v, (int, ZI)): return "int"
    if getattr(type(v), "gv_kind", None): return v.gv_kind
    if isinstance(v, FMap): return "map"
    if isinstance(v, FSet): return "set"
    return None

def valid(eng, e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    ax = getattr(eng.solver, "axioms", ())
    hyp = list(eng.solver.assertions()); key = (len(ax), tuple(a.get_id() for a in hyp), e.get_id()); memo = eng.__dict__.setdefault("valid_memo", {})
    if key not in memo:
        eng.solver.push(); eng.solver.add(z3.Not(e))
        try: memo[key] = (str(eng.solver.check()) == "unsat", hyp, e)      # the terms are kept, and so their identifiers
        finally: eng.solver.pop()
    return memo[key][0]

class Cut:
    """A stand-in iterable with a contract.  Subclasses give `roles()`, `item()` (an arbitrary element; assumptions on the state),
    `completed()` (obligations at the end of an iteration) and `ended()` (assumptions after the loop)."""
    label = "loop"
    def roles(self): return []
    def item(self): raise Unfit("no element")
    def completed(self): pass
    def ended(self): pass
    def __iter__(self): raise Unfit("iteration outside a loop")

class Running:
    """One execution of a cut loop."""
    def __init__(self, c, names, env):
        self.c, self.names = c, names; self.eng = eng = cur()
        roles = c.roles(); vals = {n: env[n] for n in names if n in env}
        entries = []      # (kind, name or None, value): variables assigned in the body, then other sets, lists and maps
        for n, v in vals.items():
            k = kind_of(v)
            if k: entries.append((k, n, v))
        for pool in (eng.alive(), eng.lists, eng.maps):
            for v in pool:
                k = kind_of(v)
                if not any(v is e[2] for e in entries) and not eng.is_const(v): entries.append((k, None, v))
        fits = []; ok = {}
        def may(i, k):
            if (i, k) not in ok: ok[i, k] = entries[k][0] == roles[i].kind and valid(eng, roles[i].init(entries[k][2]))
            return ok[i, k]
        def go(i, used, acc):
            if i == len(roles): fits.append(list(acc)); return
            for k, e in enumerate(entries):
                if k not in used and may(i, k): go(i + 1, used | {k}, [*acc, e])
        unique = [[e for e in entries if e[0] == r.kind] for r in roles]
        if all(len(u) == 1 for u in unique) and len({r.kind for r in roles}) == len(roles): fits = [[u[0] for u in unique]]
        else: go(0, frozenset(), [])
        if not fits:
            for r in roles: eng.prove(f"loop invariant of {c.label}: {r.name}: holds initially", z3.Or(*[x if isinstance(x := r.init(e[2]), z3.ExprRef) else z3.BoolVal(x) for e in entries if e[0] == r.kind], z3.BoolVal(False)))
            raise Unfit(f"{c.label}: no variables for {[r.name for r in roles]}")
        eng.fits[c.label] = max(eng.fits.get(c.label, 1), len(fits))
        self.asg = list(zip(roles, fits[min(eng.pick.get(c.label, 0), len(fits) - 1)]))
        for r, e in self.asg: eng.prove(f"loop invariant of {c.label}: {r.name}: holds initially", r.init(e[2]))
        for r, e in self.asg:
            if e[1] is not None and e[0] == "set" and sum(1 for v in env.values() if v is e[2]) > 1: raise Unfit("two names for a set that the loop changes")
        self.others = [(e[0], e[1], e[2]) for e in entries if e[1] is None and not any(e is a for _, a in self.asg)]
        del vals, entries, fits
    def havoc(self, which):
        vals = {n: sym.Undef(n) for n in self.names}; new = []
        for r, (k, n, v) in self.asg:
            x = getattr(r, which)()
            if k == "int": vals[n] = ZI(x); new.append((r, (k, n, None)))
            elif k == "set":
                if n is None: v.mem = x; v.ver += 1; v.tag = None
                else: v = vals[n] = FSet(x, v.mutable)
                new.append((r, (k, n, v)))
            elif k == "list":
                v.items, v.prefix = [], x; v.ver += 1; new.append((r, (k, n, v)))
                if n is not None: vals[n] = v
            else:
                x(v); v.ver += 1; new.append((r, (k, n, v)))
                if n is not None: vals[n] = v
        self.asg = new; self.vals = tuple(vals[n] for n in self.names)
        mine = [v for _, (k, n, v) in self.asg]
        self.rest = [(o, v) for o, v in self.eng.full_state() if not any(o is m for m in mine)]
    def end(self, env):
        L = f"loop invariant of {self.c.label}"
        for r, (k, n, v) in self.asg:
            now = v if n is None else env.get(n)
            if kind_of(now) != k: raise Unfit(f"{L}: '{r.name}' is something else")
            if k not in ("int", "set") and now is not v: raise Unfit(f"{L}: '{r.name}' is replaced")
            self.eng.prove(f"{L}: {r.name}: preserved", r.end(now))
        self.eng.unchanged(self.rest); self.c.completed()
        raise PathEnd

class Enter:
    def __init__(self, it, early, names, env):
        self.names = names; self.cut = False
        self.it = it; self.early = early
        if isinstance(cur(), CEngine) and cur().contract_for: it = self.it = cur().contract_for(it) or it
        if isinstance(it, Cut): self.cut, self.run = True, Running(it, names, env)
        elif isinstance(it, (F.FSet, F.FSeq, F.FMap, F.FVals, F.FItems, F.Layers, F.Enumerated, F.Fold)): self.cut, self.run = True, None
    @property
    def vals(self): return self.run.vals if self.run else tuple(sym.Undef(n) for n in self.names)
    def end(self, env):
        if self.run: self.run.end(env)
    def __iter__(self):
        if not self.cut: yield from self.it
        elif self.run is None: yield from F.gv_for(self.it, self.early)
        else:
            eng = cur()
            if eng.choose():
                self.run.havoc("mid"); x = self.it.item()
                if not eng.feasible(): raise Infeasible
                yield x
                raise AssertionError("unreachable")
            self.run.havoc("after"); self.it.ended()

class WEnter:
    def __init__(self, key, names, env):
        eng = cur()
        if key not in eng.whiles: raise Unfit(f"a while loop without a contract: {key}")
        self.c = c = eng.whiles[key](); self.run = Running(c, names, env); self.run.havoc("mid"); self.vals = self.run.vals; c.item()
    def end(self, env): self.run.end(env)
    def done(self): self.c.ended()

class LiftCut(F.Lift):
    def __init__(self): self.k = 0; self.w = 0
    def names(self, body, extra=()):
        out = []
        for s in body:
            for nd in ast.walk(s):
                if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store) and nd.id not in out and not nd.id.startswith("gv_"): out.append(nd.id)
        comp = {t.id for s in body for nd in ast.walk(s) if isinstance(nd, ast.comprehension) for t in ast.walk(nd.target) if isinstance(t, ast.Name)}
        return [n for n in out if n not in comp]
    def locs(self): return ast.Call(ast.Name("locals", ast.Load()), [], [])
    def unpack(self, c, ns):
        return [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in ns], ast.Store())], ast.Attribute(ast.Name(c, ast.Load()), "vals", ast.Load()))] if ns else []
    def meth(self, c, m, *a): return ast.Expr(ast.Call(ast.Attribute(ast.Name(c, ast.Load()), m, ast.Load()), list(a), []))
    def visit_For(self, n):
        early = any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in ast.walk(b))
        tn = {t.id for t in ast.walk(n.target) if isinstance(t, ast.Name)}
        ns = [x for x in self.names(n.body) if x not in tn]; self.k += 1; c = f"gv_c{self.k}"
        nsx = ns + sorted(tn)
        self.generic_visit(n)
        ent = ast.Assign([ast.Name(c, ast.Store())], self.call("gv_enter", n.iter, ast.Constant(early), ast.Tuple([ast.Constant(x) for x in nsx], ast.Load()), self.locs()))
        test = ast.Attribute(ast.Name(c, ast.Load()), "cut", ast.Load())
        aft = self.unpack(c, nsx)
        # the loop target is (re)assigned by the loop: hidden while unpacking
        hid = f"gv_x{self.k}"
        inner = ast.For(ast.Name("gv_once", ast.Store()), ast.Constant((0,)), n.body, [ast.If(test, [self.meth(c, "end", self.locs())], []), ast.Continue()])
        body = [ast.If(test, aft, [])] if aft else []
        body += [ast.Assign([n.target], ast.Name(hid, ast.Load())), inner, ast.Break()]
        loop = ast.For(ast.Name(hid, ast.Store()), ast.Name(c, ast.Load()), body, ([ast.If(test, aft, [])] if aft else []) + n.orelse)
        return [ent, loop]
    def visit_While(self, n):
        if n.orelse: raise Unfit("while ... else")
        ns = self.names([*n.body, ast.Expr(n.test)]); k = self.w; self.w += 1; self.k += 1; c = f"gv_c{self.k}"
        if any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b)): raise Unfit("break in a while loop")
        self.generic_visit(n)
        ent = ast.Assign([ast.Name(c, ast.Store())], self.call("gv_while", ast.Constant(f"{self.fname}/{k}"), ast.Tuple([ast.Constant(x) for x in ns], ast.Load()), self.locs()))
        inner = ast.For(ast.Name("gv_once", ast.Store()), ast.Constant((0,)), n.body, [])
        return [ent, *self.unpack(c, ns), ast.If(n.test, [inner, self.meth(c, "end", self.locs())], []), self.meth(c, "done")]
    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return self.call("gv_tuple", *[ast.Tuple([ast.Constant("*"), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant(""), e], ast.Load()) for e in n.elts])
        return n
    def elementwise(self, n, elts):
        """a comprehension with one generator over one name: (iterable, condition, functions of the element)"""
        if len(n.generators) != 1 or not isinstance(n.generators[0].target, ast.Name): return None
        g = n.generators[0]; a = lambda b: ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), b)
        c = ast.Constant(None) if not g.ifs else a(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return [g.iter, c, *map(a, elts)]
    def visit_DictComp(self, n):
        self.generic_visit(n); r = self.elementwise(n, [n.key, n.value])
        return self.call("gv_dictcomp", *r) if r else n
    def flat(self, n):
        """[x for l in ls for x in l]"""
        g = n.generators
        return len(g) == 2 and not g[0].ifs and not g[1].ifs and all(isinstance(x, ast.Name) for x in (g[0].target, g[1].target, g[1].iter, n.elt)) and g[1].iter.id == g[0].target.id and n.elt.id == g[1].target.id and g[0].target.id != g[1].target.id
    def comp(self, kind):
        base = super().comp(kind)
        def f(n):
            if kind != "set" and self.flat(n):
                self.generic_visit(n); return self.call("gv_flat", ast.Constant(kind), n.generators[0].iter)
            r = base(n)
            if r is not n: return r
            e = self.elementwise(n, [n.elt])
            return self.call("gv_map", ast.Constant(kind), *e) if e else n
        return f
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and any(k is None for k in n.keys):
            return self.call("gv_dictlit", *[ast.Tuple([ast.Constant("**"), v], ast.Load()) if k is None else ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)])
        return n if n.keys else self.call("gv_dict")
    def visit_List(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load): return n
        if n.elts: return self.call("gv_listlit", *[ast.Tuple([ast.Constant("*"), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant(""), e], ast.Load()) for e in n.elts])
        return self.call("gv_list")
    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred): n.value = self.call("gv_unpack1", n.value)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name): return ast.Assign([n.target], self.call("gv_aug", ast.Constant(type(n.op).__name__), ast.Name(n.target.id, ast.Load()), n.value))
        return n

def gv_aug(op, x, y):
    if isinstance(x, (ZI, int)) and not isinstance(x, bool): return x + y if op == "Add" else x - y if op == "Sub" else F.gv_aug(op, x, y)
    if isinstance(x, GList) and op == "Add": x.extend(y); return x
    if isinstance(x, tuple) and op == "Add": return x + y
    return F.gv_aug(op, x, y)

def mklist(x=()):
    if isinstance(x, (F.Layers, Stack, Flat)): return x
    if isinstance(x, (F.FSeq, F.FSet)): return F.FSeq(F.conv(x).mem)
    if isinstance(x, GList): return x
    return list(x)
def mktuple(x=()): return x if isinstance(x, (GList, F.Layers, Stack)) else tuple(x)
class _LT(type):
    def __instancecheck__(c, o): return isinstance(o, (list, GList))
class lst(metaclass=_LT):
    def __new__(cls, x=()): return mklist(x) if not (isinstance(x, (list, tuple)) and not x) else GList()

def gv_tuple(*parts):
    if any(k == "*" and isinstance(v, Stack) for k, v in parts):
        ps = []
        for k, v in parts: ps += v.parts if k == "*" and isinstance(v, Stack) else [("one", x) for x in v] if k == "*" else [("one", v)]
        return Stack(ps)
    out = []
    for k, v in parts: out += list(v) if k == "*" else [v]
    return tuple(out)
def gv_listlit(*parts):
    out = []
    for k, v in parts: out += list(v) if k == "*" else [v]
    return GList(out) if isinstance(cur(), CEngine) and cur().track_lists else out
def gv_unpack1(x):
    """(y,) = x"""
    if not isinstance(x, FSet): return x
    eng = cur(); m = x.mem; u, w = eng.label("only"), eng.label("other")
    eng.solver.push(); eng.forall(Lab, lambda y: z3.Not(m(y))); empty = str(eng.solver.check()); eng.solver.pop()
    if empty != "unsat" or not valid(eng, z3.Implies(z3.And(m(u), m(w)), u == w)): raise Unfit("a set of several nodes is unpacked")
    eng.assume(m(u)); eng.forall(Lab, lambda y: z3.Implies(m(y), y == u)); return (Lbl(u),)
def gv_dictlit(*parts):
    f = getattr(cur(), "dictlit", None)
    if f: return f(parts)
    out = {}
    for k, v in parts:
        if k == "**": out.update(v)
        else: out[k] = v
    return out
def gv_dictcomp(it, cond, key, val):
    if getattr(type(it), "gv_dictcomp", None): return it.gv_dictcomp(cond, key, val)
    if isinstance(it, (F.FSet, F.FSeq, F.FMap, F.Layers)) or isinstance(it, Cut):
        f = getattr(cur(), "dictcomp", None)
        if f is None: raise Unfit("a dictionary over an arbitrary set")
        return f(it, cond, key, val)
    return {key(x): val(x) for x in it if cond is None or cond(x)}
def gv_map(kind, it, cond, f):
    """an elementwise comprehension"""
    if getattr(type(it), "gv_map", None): return it.gv_map(kind, cond, f)
    if isinstance(it, (F.FSet, F.FSeq, F.FMap, F.Layers)) or isinstance(it, Cut): raise Unfit("the image of an arbitrary set")
    r = (f(x) for x in it if cond is None or cond(x))
    return list(r) if kind == "list" else set(r) if kind == "set" else r
def gv_flat(kind, it):
    if isinstance(it, (F.Layers, Stack)): return Flat(it)
    r = (x for l in it for x in l)
    return list(r) if kind == "list" else r

class Flat(F.FSeq):
    """The members of the layers, one layer after the other (each in an arbitrary order)."""
    def __init__(self, layers):
        self.layers = layers; eng = cur(); self.U = z3.Function(eng.fresh("in_layers"), Lab, B); k = z3.Function(eng.fresh("layer_of"), Lab, I); l = layers
        eng.forall(Lab, lambda x: z3.Implies(self.U(x), z3.And(k(x) >= 0, k(x) < l.count(), l.el(l.at(k(x)), x))))
        eng.forall((l.el,), lambda i, x: z3.Implies(z3.And(l.pos(i) >= 0, l.pos(i) < l.count(), l.el(i, x)), self.U(x)))
        super().__init__(lambda x: self.U(x))

class Stack:
    """A sequence of sets made of single sets ("one", S) and arbitrary runs ("seg", n, el, rev): n sets, the k-th with members el(k, x)
    (in the opposite order if rev)."""
    def __init__(self, parts): self.parts = list(parts)
    def gv_len(self):
        e = z3.IntVal(0)
        for p in self.parts: e = e + (1 if p[0] == "one" else p[1])
        return ZI(z3.simplify(e))
    def __bool__(self): return bool(self.gv_len() > 0)
    def at(self, k, x):
        """x is in the k-th set"""
        out, off = [], z3.IntVal(0)
        for p in self.parts:
            if p[0] == "one": out.append(z3.And(k == off, F.conv(p[1]).mem(x))); off = off + 1
            else:
                n, el, rev = p[1:]; j = (off + n - 1 - k) if rev else (k - off)
                out.append(z3.And(k >= off, k < off + n, el(j, x))); off = off + n
        return z3.Or(*out) if out else z3.BoolVal(False)
    def _end(self, last):
        if not self.parts: raise IndexError("no layers")
        p = self.parts[-1 if last else 0]
        if p[0] == "one": return p[1], self.parts[:-1] if last else self.parts[1:]
        n, el, rev = p[1:]
        if not cur().decide(n > 0): raise Unfit("an empty run of layers")
        if last == (not rev): k, q = n - 1, ("seg", n - 1, el, rev)
        else: k, q = z3.IntVal(0), ("seg", n - 1, (lambda j, x: el(j + 1, x)), rev)
        return FSet(lambda x: el(k, x)), [*self.parts[:-1], q] if last else [q, *self.parts[1:]]
    def __getitem__(self, i):
        if isinstance(i, slice):
            t = (i.start, i.stop, i.step)
            if t == (None, None, -1): return Stack([p if p[0] == "one" else (*p[:3], not p[3]) for p in reversed(self.parts)])
            if t == (None, -1, None): return Stack(self._end(True)[1])
            if t == (1, None, None): return Stack(self._end(False)[1])
            if t in ((None, None, None), (0, None, None)): return Stack(self.parts)
            raise Unfit("slice of layers")
        if i == -1 or i == 0: return self._end(i == -1)[0]
        raise Unfit("layer index")
    def __reversed__(self): return self[::-1]
    def __add__(self, o):
        if isinstance(o, Stack): return Stack(self.parts + o.parts)
        if isinstance(o, (tuple, list)): return Stack(self.parts + [("one", x) for x in o])
        return NotImplemented
    def __radd__(self, o): return Stack([("one", x) for x in o] + self.parts) if isinstance(o, (tuple, list)) else NotImplemented
    def gv_bigunion(self):
        eng = cur(); U = z3.Function(eng.fresh("union"), Lab, B); K = z3.Function(eng.fresh("from"), Lab, I); n = self.gv_len().e
        eng.forall(Lab, lambda x: z3.Implies(U(x), z3.And(K(x) >= 0, K(x) < n, self.at(K(x), x))))
        for p, off in self.offsets():
            if p[0] == "one": eng.forall(Lab, lambda x, s=F.conv(p[1]).mem: z3.Implies(s(x), U(x)))
            else: eng.forall(Lab, lambda x, p=p: self.covered(p, x, U))
        return FSet(lambda x: U(x))
    def covered(self, p, x, U):
        n, el, rev = p[1:]; lev = getattr(cur(), "level", None)
        if lev is None: raise Unfit("union of layers")
        return z3.Implies(z3.And(lev(x) >= 0, lev(x) < n, el(lev(x), x)), U(x))
    def offsets(self):
        off = z3.IntVal(0); out = []
        for p in self.parts: out.append((p, off)); off = off + (1 if p[0] == "one" else p[1])
        return out
    def __iter__(self): raise Unfit("iteration outside a loop")
    def __len__(self): raise Unfit("length of symbolic layers")
    def __getattr__(self, a): raise Unfit(f"operation on layers: {a}")

class Abandon(BaseException):
    """This assignment of variables to roles does not fit."""

class CEngine(FEngine):
    pick: dict = {}
    abandon = False
    def explore(self, harness, whiles=None):
        self.fits = {}
        def h():
            self.lists = []; self.const = []; self.track_lists = False; self.whiles = whiles or {}; self.contract_for = None; harness()
        super().explore(h)
    def prove(self, label, e, tactic=None):
        r = super().prove(label, e, tactic)
        if self.abandon and label.startswith("loop invariant of "):
            a = self.agg[label]
            if (a["bad"] or a["unk"]) and any(n > 1 for n in self.fits.values()): raise Abandon(label)
        return r
    def fix(self, *objs): self.const += objs
    def is_const(self, o): return any(o is c for c in self.const)
    def full_state(self): return self.state() + [(l, l.ver) for l in self.lists]

def attempt(ob, label, harness, whiles=None, limit=30, first=None, limit_s=None):
    """Explore; where several variables fit the roles of a loop and its invariants are not preserved, try the next assignment for
    that loop.  If none fits, the first assignment is explored to the end and reported."""
    start = dict(first or {}); pick = dict(start)
    def engine(p):
        eng = CEngine(ob, label); eng.pick = dict(p)
        if limit_s: eng.limit_s = limit_s
        return eng
    for _ in range(limit):
        eng = engine(pick); eng.abandon = True
        try:
            eng.explore(lambda: harness(eng), whiles); return eng
        except Abandon as a: why = str(a)
        except Unfit:
            if not any(n > 1 for n in eng.fits.values()): raise
            why = ""
        amb = [l for l, n in eng.fits.items() if n > 1]
        l = next((l for l in amb if why.startswith(f"loop invariant of {l}:")), amb[-1])
        n = eng.fits[l]; pick[l] = (pick.get(l, 0) + 1) % n
        if pick[l] == start.get(l, 0): break
    eng = engine(start); eng.explore(lambda: harness(eng), whiles)
    return eng

def gv_len(x):
    if getattr(type(x), "gv_len", None): return x.gv_len()
    return F.gv_len(x)

def lift(fn, **env):
    e = {"gv_enter": Enter, "gv_while": WEnter, "gv_list": GList, "gv_listlit": gv_listlit, "gv_unpack1": gv_unpack1, "gv_tuple": gv_tuple, "gv_dictcomp": gv_dictcomp, "gv_dictlit": gv_dictlit, "gv_map": gv_map, "gv_flat": gv_flat, "gv_aug": gv_aug, "list": lst, "tuple": mktuple, "len": gv_len, **env}
    return F.lift(fn, lifter=LiftCut, **e)

def every(eng, name, body, sort=Lab, on=None):
    """The predicate P(x) <=> for all u: body(u, x) (`on`: a relation such that body(u, x) holds where it does not)."""
    P = z3.Function(eng.fresh(name), Lab, B); W = z3.Function(eng.fresh(name + "_not"), Lab, sort)
    eng.forall(on if on is not None else (sort, Lab), lambda u, x: z3.Implies(P(x), body(u, x)))
    eng.forall(Lab, lambda x: z3.Implies(z3.Not(P(x)), z3.Not(body(W(x), x))))
    P.wit = W
    return P
