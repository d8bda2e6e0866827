from __future__ import annotations
import itertools, math, random, types
import numpy as np
from gv import boot, gen as G, mats as M, psim, csim, exact  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.sym import Engine, SBool, z3
import gv.sym as sym
import graphix.parameter as par
from graphix import command, instruction as I
from graphix.branch_selector import FixedBranchSelector
from graphix.command import CommandKind as K, N, E, M as Meas, X, Z, C, S, T
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.parameter import AffineExpression, Expression, Placeholder, PlaceholderOperationError
from graphix.pattern import Pattern
from graphix.sim.density_matrix import DensityMatrix
from graphix.transpiler import Circuit, transpile_swaps

PM = "graphix/parameter.py:"
P = Prop("C21", "proof",
    "The affine algebra is executed by the real code on arbitrary real coefficients (z3 Real terms, forking on comparisons): every result denotes the corresponding function of the "
    "parameters for all their values. Containers are executed on opaque angles/measurements with a recording substitution. Commutation with whole-object passes is the bounded part.",
    ["machine arithmetic of coefficients is treated as real arithmetic", "`float` is the identity on real numbers"], ["z3 nonlinear real arithmetic"])

class SR:
    """An arbitrary real number."""
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x):
        if isinstance(x, SR): return x
        if isinstance(x, (int, float)) and not isinstance(x, bool): return SR(z3.RealVal(repr(x)) if isinstance(x, float) else z3.RealVal(x))
        return None
    def _b(op):
        def f(self, o):
            o = SR.of(o)
            return NotImplemented if o is None else SR(op(self.e, o.e))
        return f
    __add__ = _b(lambda a, b: a + b); __radd__ = _b(lambda a, b: b + a)
    __sub__ = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b); __rmul__ = _b(lambda a, b: b * a)
    def __truediv__(self, o):
        o = SR.of(o)
        if o is None: return NotImplemented
        if sym.CUR.decide(o.e == 0): raise ZeroDivisionError
        return SR(self.e / o.e)
    def __rtruediv__(self, o):
        o = SR.of(o)
        return NotImplemented if o is None else o / self
    def __neg__(self): return SR(-self.e)
    def __pos__(self): return self
    def _c(op):
        def f(self, o):
            o = SR.of(o)
            return NotImplemented if o is None else SBool(op(self.e, o.e))
        return f
    __eq__ = _c(lambda a, b: a == b); __ne__ = _c(lambda a, b: a != b)
    __lt__ = _c(lambda a, b: a < b); __le__ = _c(lambda a, b: a <= b); __gt__ = _c(lambda a, b: a > b); __ge__ = _c(lambda a, b: a >= b)
    __hash__ = None
    def __bool__(self): return sym.CUR.decide(self.e != 0)
    def __float__(self): raise Unfit("conversion of an arbitrary real to a machine number")
    def __repr__(self): return f"SR({self.e})"

def real_float(x=0.0): return x if isinstance(x, SR) else float(x)

class world:
    """Rebinds `float` in graphix.parameter while the real code runs on arbitrary reals."""
    def __enter__(self): par.float = real_float
    def __exit__(self, *a): del par.float

def num(name): return SR(z3.Real(sym.CUR.fresh(name)))

def val(x, env):
    """Function denoted by a value."""
    if isinstance(x, AffineExpression):
        p = x.x
        if not isinstance(p, Placeholder) or not any(p is q for q in env): raise Unfit(f"expression over {p!r}")
        return SR.of(x.a).e * env[p].e + SR.of(x.b).e
    r = SR.of(x)
    if r is None: raise Unfit(f"value {x!r}")
    return r.e

def coef(x): return SR.of(x.a).e if isinstance(x, AffineExpression) else z3.RealVal(0)

def operand(kind, ps):
    """An arbitrary operand; expressions are normalised (non-zero coefficient)."""
    if kind == "number": return num("k")
    if kind in ("x", "y"): return ps["xy".index(kind)]
    a = num("a"); sym.CUR.assume(a.e != 0)
    return AffineExpression(a=a, x=ps["xy".index(kind[1])], b=num("b"))

KINDS = ["number", "x", "y", "ax+b", "ay+b"]
OPS = {"+": (lambda a, b: a + b), "-": (lambda a, b: a - b), "*": (lambda a, b: a * b), "/": (lambda a, b: a / b)}
def over(kind): return {"number": None, "x": 0, "y": 1, "ax+b": 0, "ay+b": 1}[kind]

AFF = [PM + "AffineExpression." + m for m in ("offset", "scale", "scale_non_null", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__neg__", "__truediv__")]

@P.proof("affine arithmetic", [*AFF, PM + "Placeholder.__init__"], "z3")
def arithmetic(ob):
    for op, f in OPS.items():
        for l, r in itertools.product(KINDS, repeat=2):
            if l == r == "number": continue
            eng = Engine(ob, f"{l} {op} {r}")
            two = over(l) is not None and over(r) is not None
            same = two and over(l) == over(r)
            def harness():
                ps = [Placeholder("x"), Placeholder("y")]; env = {ps[0]: num("X"), ps[1]: num("Y")}
                a, b = operand(l, ps), operand(r, ps); ca, cb = coef(a), coef(b); va, vb = val(a, env), val(b, env)
                if op == "/" and r == "number": eng.assume(b.e != 0)
                with world():
                    try: res = f(a, b); err = None
                    except (TypeError, PlaceholderOperationError) as e: res, err = None, e
                eng.cover("end")
                legal = (op in "+-" and (not two or same)) or (op == "*" and not two) or (op == "/" and r == "number")
                if not legal:
                    eng.prove("refused, never answered wrongly", err is not None or isinstance(res, Expression) and False)
                    return
                eng.prove("accepted", err is None)
                if err is not None: return
                want = {"+": va + vb, "-": va - vb, "*": va * vb, "/": va / vb if r == "number" else va}[op]
                wc = {"+": ca + cb, "-": ca - cb, "*": ca * vb if r == "number" else cb * va, "/": ca / vb if r == "number" else ca}[op]
                eng.prove("same function of the parameters, for all values", val(res, env) == want)
                eng.prove("still an expression exactly when some parameter is left", (wc != 0) == z3.BoolVal(isinstance(res, Expression)))
                if isinstance(res, AffineExpression): eng.prove("normalised", SR.of(res.a).e != 0)
                eng.prove("operands are not modified", z3.And(val(a, env) == va, val(b, env) == vb))
            eng.explore(harness); eng.close(["end"])
    for l in KINDS[1:]:
        eng = Engine(ob, f"-({l})")
        def neg():
            ps = [Placeholder("x"), Placeholder("y")]; env = {ps[0]: num("X"), ps[1]: num("Y")}; a = operand(l, ps); va = val(a, env)
            with world(): r = -a
            eng.cover("end"); eng.prove("negated", val(r, env) == -va); eng.prove("an expression", isinstance(r, Expression)); eng.prove("operand is not modified", val(a, env) == va)
        eng.explore(neg); eng.close(["end"])

SUBST = {"nothing": {}, "x:=number": {0: "number"}, "y:=number": {1: "number"}, "x:=ay+b": {0: "ay+b"}, "x:=ax+b": {0: "ax+b"}, "x:=y, y:=x": {0: "y", 1: "x"},
         "x:=ay+b, y:=ax+b": {0: "ay+b", 1: "ax+b"}, "both:=numbers": {0: "number", 1: "number"}, "x:=number, y:=ax+b": {0: "number", 1: "ax+b"}, "x:=x": {0: "x"}}

@P.proof("substitution", [PM + f for f in ("AffineExpression.evaluate", "AffineExpression.with_parameter", "AffineExpression.with_parameters", "Expression.subs", "Expression.xreplace",
                                           "with_parameter", "with_parameters", "Placeholder.__eq__", "Placeholder.__hash__")], "z3")
def substitution(ob):
    for k, (name, s) in itertools.product(KINDS, SUBST.items()):
        eng = Engine(ob, f"({k})[{name}]")
        def harness():
            ps = [Placeholder("p"), Placeholder("p")]       # same name: identity decides
            other = Placeholder("p"); env = {ps[0]: num("X"), ps[1]: num("Y"), other: num("W")}
            e = operand(k, ps); asg = {ps[i]: operand(kk, ps) for i, kk in s.items()}; asg0 = dict(asg)
            env2 = {p: SR(val(asg[p], env)) if any(p is q for q in asg) else v for p, v in env.items()}
            want = val(e, env2); before = val(e, env)
            def forms():
                if k != "number":
                    yield "with_parameters", e.with_parameters(asg); yield "xreplace", e.xreplace(asg)
                    if len(asg) == 1:
                        (p, v), = asg.items(); yield "with_parameter", e.with_parameter(p, v); yield "subs", e.subs(p, v)
                    yield "an unrelated parameter is assigned as well", e.with_parameters({**asg, other: num("u")})
                yield "function with_parameters", par.with_parameters(e, asg)
                if len(asg) == 1:
                    (p, v), = asg.items(); yield "function with_parameter", par.with_parameter(e, p, v)
            with world(): res = list(forms())
            eng.cover("end")
            for nm, r in res:
                eng.prove(f"{nm}: value of the expression at the substituted values, simultaneously", val(r, env) == want)
                hit = over(k) is not None and over(k) in s
                left = (over(k) is not None and not hit) or (hit and s[over(k)] != "number")
                eng.prove(f"{nm}: an expression exactly when a parameter is left", isinstance(r, Expression) == left)
                if isinstance(r, AffineExpression) and left:
                    eng.prove(f"{nm}: over the right parameter", r.x is (ps[over(k)] if not hit else ps[over(s[over(k)])])); eng.prove(f"{nm}: normalised", SR.of(r.a).e != 0)
            eng.prove("the expression is not modified", val(e, env) == before); eng.prove("the assignment is not modified", len(asg) == len(asg0) and all(asg[p] is asg0[p] for p in asg0))
        eng.explore(harness); eng.close(["end"])
    a, b = Placeholder("n"), Placeholder("n")
    ob.check("placeholders are identified by identity", a == a and not a == b and a != b and hash(a) == hash(a) and a.name == b.name == "n" and len({a, b}) == 2)
    t = object()
    ob.check("values that are no expressions are left alone", all(par.with_parameter(v, a, 1) is v and par.with_parameters(v, {a: 1}) is v for v in (t, "s", 1, 2.5, 1j)))

@P.proof("equality and checks", [PM + f for f in ("AffineExpression.__eq__", "check_expression_or_float", "check_expression_or_complex", "cos_sin", "exp")], "z3")
def equality(ob):
    for l, r in itertools.product(KINDS[1:], KINDS):
        eng = Engine(ob, f"{l} == {r}")
        def harness():
            ps = [Placeholder("x"), Placeholder("y")]; a, b = operand(l, ps), operand(r, ps)
            env = {ps[0]: num("X"), ps[1]: num("Y")}
            with world(): res = bool(a == b)
            eng.cover("end")
            eng.prove("equality is a boolean", isinstance(res, bool))
            if res: eng.prove("equal expressions denote the same function", val(a, env) == val(b, env))
            elif over(l) == over(r): eng.prove("different expressions of one parameter denote different functions", z3.Or(coef(a) != coef(b), val(a, env) != val(b, env)))
        eng.explore(harness); eng.close(["end"])
    x = Placeholder("x"); e = x * 2 + 1
    for f in (par.check_expression_or_float, par.check_expression_or_complex):
        ob.check(f"{f.__name__}: expressions are passed on", f(x) is x and f(e) is e)
        for bad in ("1", None, [1]):
            try: f(bad)
            except TypeError: ok = True
            else: ok = False
            ob.check(f"{f.__name__}: {bad!r} is refused", ok)
    ob.check("numbers are converted", par.check_expression_or_float(2) == 2.0 and type(par.check_expression_or_float(2)) is float and par.check_expression_or_complex(1j) == 1j)
    for f in (par.cos_sin, par.exp):
        for z in (x, e):
            try: f(z)
            except PlaceholderOperationError: ok = True
            else: ok = False
            ob.check(f"{f.__name__}({z}) is refused before substitution", ok)
    v = exact.Var("v") * math.pi; c, s = par.cos_sin(v)
    ob.check("expressions with trigonometry are used", c == v.cos() and s == v.sin() and par.exp(v * 1j) == (v * 1j).exp())

# -- containers: opaque angles, recorded substitution ---------------------------------------------------------------------
class Opaque(Expression):
    """An arbitrary expression; substitution is recorded."""
    def __init__(self, name): self.name = name
    def _no(self, *a): raise Unfit(f"{self.name} is inspected")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __truediv__ = _no
    def with_parameter(self, v, s): return Opaque(("one", self, v, s))
    def with_parameters(self, a): return Opaque(("many", self, a))
    def __repr__(self): return f"<{self.name}>"

def substituted(x, e, how, *args):
    return isinstance(x, Opaque) and isinstance(x.name, tuple) and x.name[0] == how and x.name[1] is e and all(a is b for a, b in zip(x.name[2:], args))

V, SUB, ASG = Placeholder("v"), Opaque("substitute"), {Placeholder("w"): Opaque("other")}

FORMS = [("with_parameter", lambda o: o.with_parameter(V, SUB), "one", (V, SUB), False), ("subs", lambda o: o.subs(V, SUB), "one", (V, SUB), False),
         ("with_parameters", lambda o: o.with_parameters(ASG), "many", (ASG,), False), ("xreplace", lambda o: o.xreplace(ASG), "many", (ASG,), False)]
INPLACE = [*FORMS, ("replace_parameter copy", lambda o: o.replace_parameter(V, SUB, copy=True), "one", (V, SUB), False), ("replace_parameters copy", lambda o: o.replace_parameters(ASG, copy=True), "many", (ASG,), False),
           ("replace_parameter", lambda o: o.replace_parameter(V, SUB), "one", (V, SUB), True), ("replace_parameters", lambda o: o.replace_parameters(ASG), "many", (ASG,), True)]

@P.proof("containers", ["graphix/measurements.py:BlochMeasurement.with_parameter", "graphix/measurements.py:BlochMeasurement.with_parameters", "graphix/measurements.py:PauliMeasurement.with_parameter",
        "graphix/measurements.py:PauliMeasurement.with_parameters", "graphix/pattern.py:Pattern.replace_parameter", "graphix/pattern.py:Pattern.replace_parameters", "graphix/pattern.py:Pattern.apply",
        "graphix/pattern.py:Pattern.is_parameterized", "graphix/transpiler.py:Circuit.replace_parameter", "graphix/transpiler.py:Circuit.replace_parameters", "graphix/transpiler.py:Circuit.apply_angle",
        "graphix/transpiler.py:Circuit.is_parameterized", "graphix/instruction.py:visit", "graphix/opengraph.py:OpenGraph.with_parameter", "graphix/opengraph.py:OpenGraph.with_parameters", "graphix/opengraph.py:OpenGraph.map",
        "graphix/flow/core.py:PauliFlow.with_parameter", "graphix/flow/core.py:PauliFlow.with_parameters", "graphix/flow/core.py:XZCorrections.with_parameter", "graphix/flow/core.py:XZCorrections.with_parameters",
        "graphix/sim/density_matrix.py:DensityMatrix.replace_parameter", "graphix/sim/density_matrix.py:DensityMatrix.replace_parameters", PM + "Parameterizable", PM + "InplaceParameterizable"], "opaque angles per command / instruction kind")
def containers(ob):
    e1, e2 = Opaque("e1"), Opaque("e2")
    for nm, f, how, args, _ in FORMS:
        for pl in Plane:
            m = BlochMeasurement(e1, pl); r = f(m)
            ob.check(f"{nm}: Bloch {pl.name}: the angle is substituted, the plane kept", isinstance(r, BlochMeasurement) and r.plane == pl and substituted(r.angle, e1, how, *args) and m.angle is e1)
            n = BlochMeasurement(0.25, pl); r = f(n)
            ob.check(f"{nm}: Bloch {pl.name}: numbers are left alone", r == n)
        for a, s in itertools.product(Axis, Sign):
            m = PauliMeasurement(a, s); ob.check(f"{nm}: Pauli {m} is left alone", f(m) == m)
    # patterns: every command kind
    for nm, f, how, args, inplace in INPLACE:
        p = Pattern(input_nodes=[3, 0]); cmds = [N(1), E((0, 1)), Meas(0, BlochMeasurement(e1, Plane.YZ), set(), set()), N(2), Meas(3, BlochMeasurement(e2, Plane.XY), {0}, {0}),
                                               Meas(2, PauliMeasurement(Axis.Y, Sign.MINUS), {3}, {0, 3}), N(4), Meas(4, BlochMeasurement(0.5, Plane.XZ)), N(5), X(1, {0}), Z(5, {2}), C(1, Clifford.S), S(0, {3}), T()]
        p.extend(cmds); p.reorder_output_nodes([5, 1]); before = [(c.kind, dict(vars(c))) for c in p]
        r = f(p); out = list(r)
        ob.check(f"{nm}: pattern: {'in place' if inplace else 'a new pattern'}", (r is p) == inplace)
        ob.check(f"{nm}: pattern: inputs, outputs and commands in order", list(r.input_nodes) == [3, 0] and list(r.output_nodes) == [5, 1] and [c.kind for c in out] == [c.kind for c in cmds])
        for c, c0 in zip(out, cmds):
            if c.kind != K.M: ob.check(f"{nm}: pattern: {c.kind.name} is left alone", c == c0)
            else:
                ok = c.node == c0.node and c.s_domain == c0.s_domain and c.t_domain == c0.t_domain
                m, m0 = c.measurement, c0.measurement
                ok = ok and (substituted(m.angle, m0.angle, how, *args) and m.plane == m0.plane if isinstance(m0, BlochMeasurement) and isinstance(m0.angle, Expression) else m == m0)
                ob.check(f"{nm}: pattern: measurement of {c0.node}", ok)
        if not inplace: ob.check(f"{nm}: pattern: the original is left alone", [(c.kind, dict(vars(c))) for c in p] == before)
    # circuits: every instruction kind
    mk = lambda a: [I.CCX(0, (1, 2)), I.RZZ(2, 0, a), I.CNOT(0, 1), I.CZ((1, 2)), I.SWAP((0, 2)), I.H(1), I.S(0), I.X(2), I.Y(1), I.Z(0), I.I(1), I.RX(0, a), I.RY(1, a), I.RZ(2, a), I.J(1, a), I.M(1, Axis.Y)]
    kinds = {i.kind for i in mk(0)}
    ob.check("every instruction kind is covered", kinds == set(I.InstructionKind), str(set(I.InstructionKind) - kinds))
    for nm, f, how, args, inplace in INPLACE:
        c = Circuit(3, mk(e1)); ref = mk(e1); r = f(c)
        ob.check(f"{nm}: circuit: {'in place' if inplace else 'a new circuit'}, same width and instructions", (r is c) == inplace and r.width == 3 and [i.kind for i in r.instruction] == [i.kind for i in ref])
        for a, b in zip(r.instruction, ref):
            ok = all(substituted(getattr(a, k), v, how, *args) if k == "angle" else getattr(a, k) == v for k, v in vars(b).items()) and set(vars(a)) == set(vars(b))
            ob.check(f"{nm}: circuit: {b.kind.name}", ok)
        if not inplace: ob.check(f"{nm}: circuit: the original is left alone", all(getattr(a, k) is v or getattr(a, k) == v for a, b in zip(c.instruction, ref) for k, v in vars(b).items()))
    # is_parameterized
    for a in (e1, Placeholder("q"), Placeholder("q") * 2 + 1, exact.Var("v")):
        for pl in Plane: ob.check(f"pattern with {type(a).__name__} in {pl.name} is parameterised", Pattern(input_nodes=[0, 1], cmds=[Meas(0, BlochMeasurement(0.5, pl)), Meas(1, BlochMeasurement(a, pl))]).is_parameterized() is True)
        for i in mk(a):
            ob.check(f"circuit with {i.kind.name} of a {type(a).__name__}", Circuit(3, [i]).is_parameterized() is hasattr(i, "angle"))
    for a in (0, 1.5, np.float64(.5), np.int64(1)):
        for pl in Plane: ob.check(f"pattern with {type(a).__name__} in {pl.name} is not parameterised", Pattern(input_nodes=[0, 1], cmds=[Meas(0, BlochMeasurement(a, pl)), Meas(1, PauliMeasurement(Axis.X, Sign.PLUS))]).is_parameterized() is False)
        ob.check(f"circuit with {type(a).__name__} is not parameterised", Circuit(3, mk(a)).is_parameterized() is False)
    # open graphs, flows and corrections
    import networkx as nx
    g = nx.Graph([(0, 1), (1, 2)])
    og = OpenGraph(g, [0], [2], {0: BlochMeasurement(e1, Plane.XY), 1: BlochMeasurement(e2, Plane.XY)}, {2: Clifford.H})
    flow = OpenGraph(g, [0], [2], {0: BlochMeasurement(e1, Plane.XY), 1: BlochMeasurement(e2, Plane.XY)}).to_causalflow()
    pf = OpenGraph(g, [0], [2], {0: BlochMeasurement(e1, Plane.XY), 1: PauliMeasurement(Axis.X, Sign.MINUS)}).to_pauliflow(); xz = flow.to_xzcorrections()
    for nm, f, how, args, _ in FORMS:
        for kind, o in (("open graph", og), ("causal flow", flow), ("Pauli flow", pf), ("corrections", xz)):
            r = f(o); a, b = (r, o) if kind == "open graph" else (r.og, o.og)
            ob.check(f"{nm}: {kind}: measurements", set(a.measurements) == set(b.measurements) and all(substituted(a.measurements[v].angle, m.angle, how, *args) and a.measurements[v].plane == m.plane
                     if isinstance(m, BlochMeasurement) else a.measurements[v] == m for v, m in b.measurements.items()))
            ob.check(f"{nm}: {kind}: nothing else changes", type(r) is type(o) and dict(a.graph.adj) == dict(b.graph.adj) and list(a.input_nodes) == list(b.input_nodes) and list(a.output_nodes) == list(b.output_nodes)
                     and a.output_cliffords == b.output_cliffords and (kind == "open graph" or all(getattr(r, k) == v for k, v in vars(o).items() if k != "og")))
            ob.check(f"{nm}: {kind}: the original is left alone", b.measurements[0].angle is e1)
    # density matrices: every entry
    for nm, f, how, args, inplace in INPLACE:
        for nq in (0, 1, 2):
            d = 2 ** nq; ent = [[Opaque((i, j)) if (i + j) % 3 else complex(i, j) for j in range(d)] for i in range(d)]
            if nq == 0: ent = [[Opaque("o")]]
            dm = DensityMatrix(nqubit=nq); dm.rho = np.empty((d, d), dtype=object)
            for i, j in itertools.product(range(d), repeat=2): dm.rho[i, j] = ent[i][j]
            rho0 = dm.rho
            try: r = f(dm)
            except Unfit: raise
            ob.check(f"{nm}: density matrix on {nq} qubits: {'in place' if inplace else 'a new state'}", (r is dm) == inplace)
            ob.check(f"{nm}: density matrix on {nq} qubits: entries", r.rho.shape == (d, d) and all(substituted(r.rho[i, j], ent[i][j], how, *args) if isinstance(ent[i][j], Opaque) else r.rho[i, j] == ent[i][j] for i in range(d) for j in range(d)))
            if not inplace: ob.check(f"{nm}: density matrix on {nq} qubits: the original is left alone", dm.rho is rho0 and all(rho0[i, j] is ent[i][j] or rho0[i, j] == ent[i][j] for i in range(d) for j in range(d)))

# -- bounded: substitution commutes with whole-object passes -----------------------------------------------------------------
def param_angle(r, ps):
    if r.random() < .4: return G.angle(r)
    e = r.choice(ps)
    if r.random() < .5: e = e * r.choice([-1, 2, .5, -.25, 1.5])
    if r.random() < .5: e = e + r.choice([.5, 1, -.5, .25, .3])
    if r.random() < .2: e = e - r.choice([e.x if False else ps[0]]) if isinstance(e, AffineExpression) and e.x is ps[0] else 1 - e
    return e

def param_meas(r, ps):
    if r.random() < .2: return PauliMeasurement(r.choice(list(Axis)), r.choice(list(Sign)))
    return BlochMeasurement(param_angle(r, ps), r.choice(list(Plane)))

def holders(n, r): return [Placeholder(r.choice(["a", "a", "b"])) for _ in range(n)]

def assignment(r, ps): return {p: r.choice([0, 0.5, 1, -0.5, np.float64(.25), round(r.uniform(-2, 2), 4), 3]) for p in ps}

def staged(r, o, ps, sig):
    """The same substitution, in one of several forms."""
    k = r.randrange(5)
    if k == 0: return o.with_parameters(sig)
    if k == 1: return o.xreplace(dict(reversed(list(sig.items()))))
    if k == 2:
        for p in r.sample(ps, len(ps)): o = o.with_parameter(p, sig[p])
        return o
    if k == 3:
        part = ps[:len(ps) // 2 + 1]
        return o.with_parameters({p: sig[p] for p in part}).with_parameters({p: sig[p] for p in ps if not any(p is q for q in part)} | {Placeholder("a"): 7.0})
    # through a permutation of the parameters and back (simultaneous)
    perm = r.sample(ps, len(ps)); inv = {q: p for p, q in zip(ps, perm)}
    return o.with_parameters(dict(zip(ps, perm))).with_parameters({q: sig[inv[q]] for q in perm})

PASSES = [("standardize", lambda p: p.standardize()), ("shift signals", lambda p: (p.standardize(), p.shift_signals())[0]), ("shift signals direct", lambda p: p.shift_signals(method="direct") and None),
          ("shift signals mc", lambda p: p.shift_signals(method="mc") and None), ("to_bloch", lambda p: p.to_bloch()), ("blochify", lambda p: p.blochify(copy=True)), ("infer Pauli", lambda p: p.infer_pauli_measurements(copy=True)),
          ("infer Pauli in place", lambda p: p.infer_pauli_measurements()), ("minimise space", lambda p: p.minimize_space()), ("nothing", lambda p: None),
          ("remove Clifford", lambda p: p.remove_local_clifford_commands(copy=True)), ("push Pauli", lambda p: p.perform_pauli_pushing(copy=True)), ("remove Pauli", lambda p: p.remove_pauli_measurements(copy=True)),
          ("remove inputs", lambda p: p.remove_input_nodes())]

def cases(rng, tier): yield from G.seeds(rng, lambda r: r.randrange(2, 6))

def numeric_ok(p): return not p.is_parameterized()

@P.bounded("patterns commute with substitution", ["graphix/pattern.py:Pattern.replace_parameters", "graphix/pattern.py:Pattern.standardize", "graphix/pattern.py:Pattern.shift_signals", "graphix/pattern.py:Pattern.infer_pauli_measurements",
           "graphix/pattern.py:Pattern.to_bloch", "graphix/pattern.py:Pattern.minimize_space"], cases, "random runnable patterns on <= 5 nodes with affine angles over <= 3 placeholders, all outcome branches", quick=8, thorough=120)
def pattern_commutes(case):
    seed, n = case; r = random.Random(seed); ps = holders(r.randrange(1, 4), r); sig = assignment(r, ps)
    p = G.pattern(r, n, meas=lambda r: param_meas(r, ps))
    want_par = any(isinstance(c.measurement, BlochMeasurement) and isinstance(c.measurement.angle, Expression) for c in p if c.kind == K.M)
    if p.is_parameterized() != want_par: return "is_parameterized of the pattern"
    name, f = r.choice(PASSES)
    a = p.copy(); b = staged(r, p, ps, sig)
    if not numeric_ok(b): return "a parameter is left after substituting all of them"
    try: fa = f(a)
    except Exception as e:  # noqa: BLE001
        fa = e
    try: fb = f(b)
    except Exception as e:  # noqa: BLE001
        fb = e
    if isinstance(fa, Exception) or isinstance(fb, Exception):
        if type(fa) is type(fb): return "skip"
        return f"{name}: {fa!r} on the parametric pattern, {fb!r} after substitution"
    if isinstance(fa, Pattern) and fa is not a: a = fa
    if isinstance(fb, Pattern) and fb is not b: b = fb
    s = staged(r, a, ps, sig)
    if s.is_parameterized(): return f"{name}: a parameter is left"
    msg = psim.same_branches(s, b, limit=16, rng=r)
    return f"{name} then substitution vs substitution then {name}: {msg}" if msg else None

CPASSES = [("transpile", lambda c: c.transpile().pattern), ("transpile_swaps", lambda c: transpile_swaps(c).circuit), ("z axis", lambda c: c.transpile_measurements_to_z_axis()),
           ("j to rzh", lambda c: c.transpile_j_to_rzh()), ("nothing", lambda c: c), ("copy", lambda c: c.apply_angle(lambda a: a, copy=True)), ("bloch", lambda c: c.apply_angle(lambda a: a + 2, copy=True).apply_angle(lambda a: -a, copy=True))]

def circuit_map(c):
    return [csim.run(c, o) for o in itertools.product((0, 1), repeat=csim.n_meas(c))]

@P.bounded("circuits commute with substitution", ["graphix/transpiler.py:Circuit.replace_parameters", "graphix/transpiler.py:Circuit.transpile", "graphix/transpiler.py:Circuit.transpile_j_to_rzh", "graphix/transpiler.py:Circuit.transpile_measurements_to_z_axis"],
           lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 4), lambda r: r.randrange(1, 7)), "random circuits on <= 3 qubits, <= 6 gates, affine angles over <= 3 placeholders", quick=8, thorough=120)
def circuit_commutes(case):
    seed, w, d = case; r = random.Random(seed); ps = holders(r.randrange(1, 4), r); sig = assignment(r, ps)
    name, f = r.choice(CPASSES)
    c = G.circuit(r, w, d, measure=0.0 if name == "transpile" else .1, angle_fn=lambda r: param_angle(r, ps), ccx=0 if name == "transpile" else .1)
    if c.is_parameterized() != any(isinstance(getattr(i, "angle", 0), Expression) for i in c.instruction): return "is_parameterized of the circuit"
    b = staged(r, c, ps, sig)
    if b.is_parameterized(): return "a parameter is left after substituting all of them"
    fa, fb = f(c), f(b)
    if fa is None: return "skip"
    s = staged(r, fa, ps, sig)
    if s.is_parameterized(): return f"{name}: a parameter is left"
    if isinstance(s, Pattern):
        x = psim.same_branches(s, fb, limit=8, rng=r) if len(psim.measured(s)) == len(psim.measured(fb)) and set(psim.measured(s)) == set(psim.measured(fb)) else "skip-structure"
        if x == "skip-structure":
            o1 = dict.fromkeys(psim.measured(s), 0); o2 = dict.fromkeys(psim.measured(fb), 0)
            x = None if M.prop_equal(psim.branch(s, o1)[0], psim.branch(fb, o2)[0]) else "the maps differ"
        return f"{name}: {x}" if x else None
    for u, v in zip(circuit_map(s), circuit_map(fb)):
        if u.shape != v.shape or not M.phase_equal(u, v): return f"{name} then substitution vs substitution then {name}: different maps"
    return None

@P.bounded("flows commute with substitution", ["graphix/opengraph.py:OpenGraph.with_parameters", "graphix/flow/core.py:PauliFlow.with_parameters", "graphix/flow/core.py:XZCorrections.with_parameters"],
           lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 3), lambda r: r.randrange(1, 4)), "random open graphs with causal flow, <= 8 nodes, affine angles over <= 3 placeholders, all stages of the pipeline", quick=6, thorough=90)
def flow_commutes(case):
    seed, w, d = case; r = random.Random(seed); ps = holders(r.randrange(1, 4), r); sig = assignment(r, ps)
    og = G.flow_graph(r, w, d, meas=lambda r: BlochMeasurement(param_angle(r, ps), Plane.XY))
    stage = r.randrange(4)
    def pipe(o, sub_at):
        s = (lambda x, k: staged(random.Random(seed), x, ps, sig) if k == sub_at else x)
        o = s(o, 0); fl = s(o.to_causalflow(), 1); xz = s(fl.to_xzcorrections(), 2); p = s(xz.to_pattern(), 3)
        return p
    a, b = pipe(og, 0), pipe(og, 1 + stage % 3)
    if a.is_parameterized() or b.is_parameterized(): return "a parameter is left"
    return psim.same_branches(a, b, limit=8, rng=r)

@P.bounded("symbolic simulation commutes with substitution", ["graphix/sim/density_matrix.py:DensityMatrix.replace_parameters", "graphix/simulator.py:PatternSimulator.run", "graphix/sim/base_backend.py:measure"],
           lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 3), lambda r: r.randrange(1, 3)), "random deterministic patterns on <= 6 nodes, angles over <= 3 variables, density matrix backend, one random branch", quick=6, thorough=60)
def simulation_commutes(case):
    exact._Base.__array_priority__ = 0.0
    seed, w, d = case; r = random.Random(seed); vs = [exact.Var(n) for n in "abc"]; sig = {v: r.choice([0, .5, 1, round(r.uniform(-2, 2), 3)]) for v in vs}
    def ang(r):
        if r.random() < .3: return G.angle(r)
        e = r.choice(vs)
        if r.random() < .5: e = e * r.choice([-1, 2, .5])
        if r.random() < .3: e = e + r.choice([r.choice(vs), .5, 1])
        return e
    og = G.flow_graph(r, w, d, meas=lambda r: BlochMeasurement(ang(r), Plane.XY))
    p = og.to_causalflow().to_xzcorrections().to_pattern()
    if p.is_parameterized() != any(isinstance(m.angle, Expression) for m in og.measurements.values()): return "is_parameterized"
    outs = {c.node: r.randrange(2) for c in p if c.kind == K.M}
    q = p.with_parameters(sig)
    s0 = q.simulate(backend="densitymatrix", branch_selector=FixedBranchSelector(outs))
    s1 = p.simulate(backend="densitymatrix", branch_selector=FixedBranchSelector(outs), symbolic=True)
    rho = s1.with_parameters(sig).rho
    if not np.allclose(np.asarray(rho, dtype=complex), np.asarray(s0.rho, dtype=complex), atol=1e-7): return f"symbolic simulation then substitution differs: {np.round(np.asarray(rho, dtype=complex), 3).tolist()} vs {np.round(s0.rho, 3).tolist()}"
    return None
