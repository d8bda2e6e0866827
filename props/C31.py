from __future__ import annotations
import copy as _copy, dataclasses, enum, inspect, itertools, math, random
import numpy as np
import graphix, graphix.states
from gv import boot, gen as G
from gv.angletext import FF, Int, Val
from gv.core import Prop, Unfit, need
from gv.extract import rebind
from graphix import command, instruction, measurements, pretty_print
from graphix.clifford import Clifford
from graphix.fundamentals import ANGLE_PI, IXYZ, Axis, ComplexUnit, Plane, Sign, I as IDENT
from graphix.instruction import InstructionVisitor
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.noise_models import DepolarisingNoise
from graphix.noise_models.noise_model import ApplyNoise
from graphix.parameter import Placeholder
from graphix.pattern import Pattern
from graphix.pauli import Pauli
from graphix.states import BasicStates, PlanarState
from graphix.transpiler import Circuit
z3 = boot.z3()

RM = "graphix/repr_mixins.py:"
P = Prop("C31", "proof",
    "Every concrete command and instruction class is represented with opaque field values in every combination of default / non-default fields, and the text is evaluated with the opaque names bound: the "
    "fields of the result are the same objects. The finite types (enumerations, Clifford gates, Pauli operators, Pauli measurements) are enumerated. Angles: the text made from an arbitrary reduced "
    "fraction is parsed by Python over z3 reals and proved equal to it; Bloch measurements and states with opaque angles; patterns and circuits with opaque lists, and the constructor that reads them back. "
    "Copies: Pattern.copy and visit(copy=True) per command and instruction class with opaque values.",
    ["the representations of Python's int, float, str, list, tuple and set evaluate to equal objects",
     "names: `pi` stands for ANGLE_PI, parameters are bound to distinct valid identifiers, classes to graphix's",
     "fractions.Fraction.limit_denominator returns a reduced fraction with a positive denominator; quotients are correctly rounded",
     "angles are finite; initial states are treated as values: they are not copied"],
    ["dataclasses", "fractions", "enum"])

CMDS = {n: getattr(command, n) for n in ("N", "M", "E", "C", "X", "Z", "S", "T")}
INSTRS = {n: getattr(instruction, n) for n in ("CCX", "RZZ", "CNOT", "SWAP", "CZ", "H", "S", "X", "Y", "Z", "I", "M", "RX", "RY", "RZ", "J")}
SHARED = dict(Measurement=Measurement, Clifford=Clifford, Plane=Plane, Axis=Axis, Sign=Sign, ComplexUnit=ComplexUnit, IXYZ=IXYZ, I=IDENT, Pauli=Pauli,
              Pattern=Pattern, Circuit=Circuit, PlanarState=PlanarState, graphix=graphix, pi=ANGLE_PI, set=set, frozenset=frozenset)
# numpy scalars write themselves as np.float64(0.5)
SHARED["np"] = np
CENV = dict(SHARED, **CMDS)
IENV = {**SHARED, **{k: v for k, v in INSTRS.items()}}
def ev(text, env, **more):
    return eval(text, {"__builtins__": {}, **env, **more})  # noqa: S307

class Tok:
    """An opaque value, written as a name."""
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    __str__ = __repr__
    def __eq__(self, o): return self is o
    __hash__ = object.__hash__
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __bool__ = __len__ = __iter__ = __lt__ = __add__ = __mul__ = __float__ = __int__ = __index__ = __contains__ = _no
class ATok(Tok):
    """An opaque angle that is not a number."""
    __float__ = __int__ = __index__ = None

def concrete(mod, base):
    out = []
    def go(c):
        for d in c.__subclasses__():
            go(d)
            if d.__module__ == mod.__name__ and not inspect.isabstract(d) and hasattr(d, "kind"): out.append(d)
    go(base); return sorted(set(out), key=lambda c: c.__name__)

@P.proof("representation of commands and instructions", [RM + "DataclassReprMixin.__repr__", "graphix/command.py", "graphix/instruction.py"], "opaque field values")
def dataclass_repr(ob):
    for mod, base, env in ((command, command.BaseCommand, CENV), (instruction, instruction.BaseInstruction, IENV)):
        names = set()
        for cls in concrete(mod, base):
            names.add(cls.__name__); fs = dataclasses.fields(cls)
            ob.check(f"{mod.__name__}.{cls.__name__}: the constructor takes the fields in their order",
                     list(inspect.signature(cls).parameters) == [f.name for f in fs] and all(f.init and not f.kw_only for f in fs))
            opt = [f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING for f in fs]
            for pick in itertools.product(*[(0, 1) if o else (1,) for o in opt]):
                toks = {f.name: ATok(f"tok_{f.name}") for f in fs}
                obj = cls(**{f.name: toks[f.name] for f, p in zip(fs, pick) if p})
                text = repr(obj)
                try:
                    back = ev(text, {**env, cls.__name__: cls}, **{t.n: t for t in toks.values()})
                    ok = type(back) is cls and back == obj and all(getattr(back, f.name) is toks[f.name] for f, p in zip(fs, pick) if p)
                except Exception as e:  # noqa: BLE001
                    ok, text = False, f"{text}: {type(e).__name__}: {e}"
                ob.check(f"{mod.__name__}.{cls.__name__}{pick}: the text evaluates to the same fields", ok, text)
        want = set(CMDS if mod is command else INSTRS)
        ob.check(f"{mod.__name__}: all classes covered", want <= names, sorted(want - names))
    # every dataclass with up to four fields
    def shapes():
        for k in range(5):
            for shape in itertools.product(("plain", "default", "factory"), repeat=k):
                if any(a != "plain" and b == "plain" for a, b in zip(shape, shape[1:])): continue
                for pick in itertools.product(*[(1,) if s == "plain" else (0, 1) for s in shape]):
                    for meta in itertools.product((0, 1), repeat=k):
                        yield shape, pick, meta
    from graphix.repr_mixins import DataclassReprMixin
    cache = {}
    def make(shape, meta):
        if (shape, meta) not in cache:
            ds = [Tok(f"d{i}") for i in range(len(shape))]
            fl = []
            for i, s in enumerate(shape):
                kw = {"metadata": {"repr": lambda v: f"wrap({v!r})"}} if meta[i] else {}
                if s == "default": kw["default"] = ds[i]
                elif s == "factory": kw["default_factory"] = lambda d=ds[i]: d
                fl.append((f"f{i}", object, dataclasses.field(**kw)))
            cache[shape, meta] = dataclasses.make_dataclass("K", fl, bases=(DataclassReprMixin,), repr=False), ds
        return cache[shape, meta]
    def held():
        for shape, pick, meta in shapes():
            K, ds = make(shape, meta)
            vs = [Tok(f"v{i}") for i in range(len(shape))]
            obj = K(**{f"f{i}": vs[i] for i, p in enumerate(pick) if p})
            text = repr(obj); wrapped = []
            try:
                back = ev(text, dict(K=K, wrap=lambda v: (wrapped.append(v), v)[1]), **{v.n: v for v in vs + ds})
                ok = all(getattr(back, f"f{i}") is (vs[i] if p else ds[i]) for i, p in enumerate(pick))
                ok = ok and [v.n for v in wrapped] == [vs[i].n for i, p in enumerate(pick) if p and meta[i]]
            except Exception as e:  # noqa: BLE001
                ok, text = False, f"{text}: {type(e).__name__}: {e}"
            yield [shape, pick, meta, text], ok
    ob.total("any dataclass of at most four fields evaluates back", held())

@P.proof("finite types", [RM + "EnumReprMixin.__repr__", "graphix/clifford.py:Clifford.__repr__", "graphix/pauli.py:Pauli.__repr__", "graphix/measurements.py:PauliMeasurement.__repr__",
                          "graphix/fundamentals.py", "graphix/states.py:PlanarState.__repr__"], "complete enumeration")
def finite(ob):
    def every(vals):
        for v in vals:
            try: yield repr(v), ev(repr(v), SHARED) == v and type(ev(repr(v), SHARED)) is type(v)
            except Exception as e: yield f"{v!r}: {type(e).__name__}: {e}", False  # noqa: BLE001
    ob.total("axes", every(Axis)); ob.total("planes", every(Plane))
    ob.total("signs", every(Sign)); ob.total("units", every(ComplexUnit))
    ob.total("the 24 Clifford gates", every(Clifford))
    ob.total("the 16 Pauli operators", every(Pauli(a, u) for a in [IDENT, *Axis] for u in ComplexUnit))
    ob.total("the 6 Pauli measurements", every(PauliMeasurement))
    ob.total("the named states", every(BasicStates.VEC))
    def by_class():
        for a in Axis:
            for s in Sign:
                b = ev(repr(PauliMeasurement(a, s)), SHARED)
                yield [str(a), str(s)], isinstance(b, PauliMeasurement) and b.axis is a and b.sign is s
    ob.total("the Pauli measurement read back has the axis and the sign", by_class())

@P.proof("measurements and states", ["graphix/measurements.py:BlochMeasurement.__repr__", "graphix/states.py:PlanarState.__repr__"], "opaque angles")
def opaque_angles(ob):
    for plane in Plane:
        a = ATok("alpha")
        for obj in (BlochMeasurement(a, plane), PlanarState(plane, a)):
            try:
                b = ev(repr(obj), SHARED, alpha=a); ok = type(b) is type(obj) and b.angle is a and b.plane is plane
            except Exception as e: b, ok = f"{type(e).__name__}: {e}", False  # noqa: BLE001
            ob.check(f"{type(obj).__name__}, {plane}: angle and plane are read back", ok, [repr(obj), str(b)])

@P.proof("angles of instructions", ["graphix/instruction.py:repr_angle", "graphix/pretty_print.py:angle_to_str"], "z3")
def angles(ob):
    ra = need(instruction, "repr_angle"); ats = need(pretty_print, "angle_to_str")
    n, d = z3.Real("n"), z3.Real("d")
    for cls in ("m", "-1", "0", "1", "p"):
        for dc in ("1", "p"):
            if cls == "0" and dc == "p": continue  # reduced fractions
            for eq in (True, False):
                class Frac:
                    def __init__(self, v): 
                        if not isinstance(v, Val): raise Unfit("fraction of something else")
                    def limit_denominator(self, k=1000): return self
                    numerator, denominator = Int(cls, "n"), Int(dc, "d")
                class Mth:
                    @staticmethod
                    def isclose(a, b, **k):
                        if (isinstance(a, Val) and isinstance(b, FF)) or (isinstance(a, FF) and isinstance(b, Val)):
                            if eq: return True
                        raise Unfit("isclose")
                def flt(x):
                    if isinstance(x, Frac): return FF()
                    if isinstance(x, Val): return x
                    raise Unfit("float")
                text = rebind(ra, Fraction=Frac, float=flt, math=Mth, angle_to_str=rebind(ats, Fraction=Frac, float=flt, math=Mth, angle_to_rad=None))(Val(eq))
                val = {"m": -n, "-1": z3.RealVal(-1), "0": z3.RealVal(0), "1": z3.RealVal(1), "p": n}[cls] / (d if dc == "p" else z3.RealVal(1))
                V = z3.Real("V")
                try: got = ev(text, {}, n=n, d=d, V=V, pi=z3.RealVal(1))
                except Exception as e:  # noqa: BLE001
                    ob.check(f"numerator {cls}, denominator {dc}, simple {eq}: a Python expression", False, f"{text}: {type(e).__name__}", concrete=False); continue
                s = z3.Solver(); s.set("timeout", 20000); s.add(n >= 2, d >= 2)
                if eq: s.add(V == val)
                s.add(got != V)
                r = s.check()
                ob.check(f"numerator {cls}, denominator {dc}, simple {eq}: the text has the value of the angle", r == z3.unsat, f"{text}: {r}", backend="z3", concrete=False)
    ob.check("an angle that is not a number is written as itself", ra(ATok("alpha")) == "alpha")
    for c in (instruction.RX, instruction.RY, instruction.RZ, instruction.J, instruction.RZZ):
        f = {f.name: f for f in dataclasses.fields(c)}["angle"]
        ob.structural(f"{c.__name__}: the angle is written by repr_angle", f.metadata.get("repr") is ra)

class LTok(list):
    """An opaque list, empty or not."""
    def __init__(self, name, full): super().__init__([Tok(name + "_item")] if full else []); self.name = name
    def __repr__(self): return self.name
    __str__ = __repr__

@P.proof("patterns and circuits", ["graphix/pattern.py:Pattern.__repr__, __eq__, __init__, add, extend, reorder_output_nodes", "graphix/transpiler.py:Circuit.__repr__, add, extend"], "opaque lists")
def programs(ob):
    def pat(ins, seq, outs):
        p = Pattern(); need(p, "_Pattern__input_nodes", ); need(p, "_Pattern__seq"); need(p, "_Pattern__output_nodes")
        p._Pattern__input_nodes, p._Pattern__seq, p._Pattern__output_nodes = ins, seq, outs
        return p
    for fi, fs, fo in itertools.product((0, 1), repeat=3):
        ins, seq, outs = LTok("INS", fi), LTok("SEQ", fs), LTok("OUTS", fo)
        got = {}
        text = repr(pat(ins, seq, outs))
        def ctor(*a, **k):
            got.update(k)
            if a: raise Unfit("positional")
            return got
        try: ev(text, {}, Pattern=ctor, INS=ins, SEQ=seq, OUTS=outs)
        except Unfit: raise
        except Exception as e: ob.structural(f"pattern {fi, fs, fo}: evaluates", False, f"{text}: {e}"); continue  # noqa: BLE001
        full = lambda k, l: got.get(k) is l if len(l) else not got.get(k)
        ob.structural(f"pattern {fi, fs, fo}: exactly the non-empty lists are passed", full("input_nodes", ins) and full("cmds", seq) and full("output_nodes", outs), text)
    # reading back: every command is appended as it is, inputs and outputs are those given
    for kind in command.CommandKind:
        class Cmd:
            def __repr__(self): return "CMD"
        Cmd.kind = kind; c = Cmd(); v, w = Tok("v"), Tok("w"); c.node = v
        for outs in ([], [w], [v, w], [w, v]):
            seq = [Tok("earlier")]; p = pat([], list(seq), list(outs)); p.add(c)
            r = p._Pattern__output_nodes
            want = outs + [v] if kind == command.CommandKind.N else [x for x in outs if x is not v] if kind == command.CommandKind.M else outs
            ob.check(f"add {kind.name} to outputs {outs}: the command is appended, the outputs change by it only",
                     len(p._Pattern__seq) == 2 and p._Pattern__seq[0] is seq[0] and p._Pattern__seq[1] is c and len(r) == len(want) and all(a is b for a, b in zip(r, want)))
    added = []
    class Q(Pattern):
        def add(self, cmd): added.append(cmd)
    a, b, x, y = Tok("a"), Tok("b"), Tok("x"), Tok("y")
    class Plain:
        kind = command.CommandKind.E
    cs = [Plain(), Plain(), Plain()]
    for ins in ([], [a], [a, b]):
        for perm in itertools.permutations(ins):
            added.clear(); given = list(ins); q = Q(input_nodes=given, cmds=list(cs), output_nodes=list(perm))
            ob.check(f"constructor, inputs {ins}, outputs {perm}: own lists as given, all commands added in order",
                     q.input_nodes == ins and q.output_nodes == list(perm) and [id(z) for z in added] == [id(z) for z in cs] and q._Pattern__input_nodes is not given)
    ob.check("a refused reordering", _raises(lambda: Pattern(input_nodes=[0, 1], output_nodes=[0, 2])) and _raises(lambda: Pattern(input_nodes=[0, 1], output_nodes=[0])))
    # equality compares the three lists
    for i in range(3):
        ls = [[a], [x], [b]]; ms = [list(l) for l in ls]; same = pat(*ls) == pat(*[list(l) for l in ls]); ms[i] = [y]
        ob.check(f"patterns differing in list {i} are different, equal lists are equal", same and pat(*ls) != pat(*ms))
    # circuits
    got = {}
    c = Circuit(2); w, l = Tok("W"), LTok("INSTR", 1); c.width, c.instruction = w, l
    try:
        ev(repr(c), {}, Circuit=lambda *a, **k: got.update(zip(("width", "instr"), a), **k), W=w, INSTR=l)
        ok = got.get("width") is w and got.get("instr") is l
    except Exception as e: ok = False; got = f"{type(e).__name__}: {e}"  # noqa: BLE001
    ob.structural("the circuit's width and instructions are passed", ok, str(got))
    u, v, t = 0, 1, 2; an = ATok("alpha")
    made = dict(CCX=(t, (u, v)), RZZ=(u, v, an), CNOT=(u, v), SWAP=((u, v),), CZ=((u, v),), M=(u, Axis.Y), RX=(u, an), RY=(u, an), RZ=(u, an), J=(u, an))
    for n, cls in INSTRS.items():
        ins = cls(*made.get(n, (u,))); c = Circuit(3); c.add(ins)
        ob.check(f"Circuit.add of {n}: an equal instruction is appended", len(c.instruction) == 1 and c.instruction[0] == ins and type(c.instruction[0]) is cls, repr(c.instruction))

def _raises(f):
    try: f()
    except Exception: return True  # noqa: BLE001
    return False

class STok(set):
    """An opaque set."""
    def __init__(self, name, items=()): super().__init__(items or {Tok(name)}); self.name = name
    def copy(self): return set(self)

def mutable(x): return isinstance(x, (list, set, dict, bytearray))

@P.proof("copies", ["graphix/pattern.py:Pattern.copy", "graphix/instruction.py:visit", "graphix/transpiler.py:Circuit.visit"], "opaque field values, all classes")
def copies(ob):
    class MyM(command.BaseM): pass
    mk = [command.N(Tok("n")), command.N(Tok("n"), Tok("state")), command.M(Tok("n")), command.M(Tok("n"), Tok("m"), STok("s"), STok("t")), command.E((Tok("u"), Tok("v"))), command.C(Tok("n"), Tok("c")),
          command.X(Tok("n"), STok("d")), command.Z(Tok("n"), STok("d")), command.S(Tok("n"), STok("d")), command.T(), command.BaseN(Tok("n")), command.BaseM(Tok("n")), MyM(Tok("n")),
          ApplyNoise(Tok("noise"), [Tok("u"), Tok("v")], STok("d")), ApplyNoise(Tok("noise"), [Tok("u")])]
    for cmd in mk:
        p = Pattern(); need(p, "_Pattern__seq"); x = Tok("other"); xs = [x]
        p._Pattern__seq, p._Pattern__input_nodes, p._Pattern__output_nodes = [cmd, cmd], list(xs), list(xs)
        q = p.copy(); cs = list(q)
        lab = f"{type(cmd).__name__}{sorted(vars(cmd))}"
        ob.check(f"copy of {lab}: an equal command of the same class", len(cs) == 2 and all(type(c) is type(cmd) and c == cmd for c in cs), repr(cs))
        ob.check(f"copy of {lab}: a different command object", isinstance(cmd, command.T) or all(c is not cmd for c in cs))
        for f, v in vars(cmd).items():
            if mutable(v): ob.check(f"copy of {lab}: {f} is not shared", all(getattr(c, f) is not v and getattr(c, f) == v for c in cs))
            else: ob.check(f"copy of {lab}: {f} is the same value", all(getattr(c, f) is v for c in cs))
        ob.check(f"copy of {lab}: equal pattern, own lists", q == p and type(q) is Pattern and q._Pattern__seq is not p._Pattern__seq and q._Pattern__input_nodes is not p._Pattern__input_nodes
                 and q._Pattern__output_nodes is not p._Pattern__output_nodes)
    p = Pattern(input_nodes=[0, 1], cmds=[command.N(5)]); q = p.copy()
    ob.check("all attributes are copied", set(vars(p)) == set(vars(q)) and all(vars(p)[k] == vars(q)[k] for k in vars(p)) and q.n_node == p.n_node)
    qa, qb, qc, an, ax = (ATok(s) for s in ("a", "b", "c", "alpha", "axis"))
    made = dict(CCX=(qc, (qa, qb)), RZZ=(qa, qb, an), CNOT=(qa, qb), SWAP=((qa, qb),), CZ=((qa, qb),), M=(qa, ax), RX=(qa, an), RY=(qa, an), RZ=(qa, an), J=(qa, an))
    img = {t: ATok("f" + t.n) for t in (qa, qb, qc, an, ax)}
    class V(InstructionVisitor):
        def __init__(self): self.seen = []
        def visit_qubit(self, q): self.seen.append(("q", q)); return img[q]
        def visit_angle(self, q): self.seen.append(("a", q)); return img[q]
        def visit_axis(self, q): self.seen.append(("x", q)); return img[q]
    def deep(x): return tuple(deep(y) for y in x) if isinstance(x, tuple) else img[x]
    for n, cls in INSTRS.items():
        args = made.get(n, (qa,)); ins = cls(*args); before = dict(vars(ins)); v = V(); r = ins.visit(v, copy=True)
        ob.check(f"visit copy of {n}: the original is unchanged", vars(ins) == before and all(vars(ins)[k] is before[k] for k in before))
        ob.check(f"visit copy of {n}: a new instruction with the images of the fields", r is not ins and type(r) is cls and all(getattr(r, f.name) == deep(getattr(ins, f.name)) for f in dataclasses.fields(cls)), repr(r))
        want = {("q", t) for t in (qa, qb, qc)} | {("a", an), ("x", ax)}
        ob.check(f"visit of {n}: every field is visited by the function of its type", set(v.seen) <= want)
        ob.check(f"visit copy of {n}: no shared list or set", not any(mutable(x) for x in vars(r).values()))
        same = ins.visit(V(), copy=False)
        ob.check(f"visit in place of {n}: the same object, the same result", same is ins and ins == r)
    # circuits, with the visitor's default functions
    c = Circuit(3)
    for n, cls in INSTRS.items():
        if n != "M": c.add(cls(*{k: tuple({qa: 0, qb: 1, qc: 2}.get(y, y) if not isinstance(y, tuple) else tuple({qa: 0, qb: 1}[z] for z in y) for y in v) for k, v in made.items()}.get(n, (0,))))
    c.add(instruction.M(2, Axis.X))
    d = c.visit(InstructionVisitor(), copy=True)
    ob.check("a visited copy of a circuit: equal, own instructions and lists", d is not c and d.width == c.width and d.instruction == c.instruction and d.instruction is not c.instruction
             and d.active_qubits == c.active_qubits and d.active_qubits is not c.active_qubits and all(a is not b for a, b in zip(c.instruction, d.instruction)))

# ---------------------------------------------------------------------------------------------- bounded

def some_angle(r, params=()):
    k = r.randrange(9)
    if k == 0: return r.choice([0, 1, 2, -1, 3, 0.0, -0.0, 1.0, 0.5, -0.5, 1.5])
    if k == 1: return r.randint(-40, 40) / r.randint(1, 40)
    if k == 2: return r.uniform(-3, 3)
    if k == 3: return r.randint(-3000, 3000) / r.randint(900, 1100)
    if k == 4:
        x = r.randint(-20, 20) / r.randint(1, 12)
        for _ in range(r.randint(1, 3)): x = math.nextafter(x, r.choice([-9, 9]))
        return x
    if k == 5: return r.choice([1e-12, -1e-9, 1e-300, 1e-5, 1e16, 1e22, -123456789.25, 5e-324, 2.0 ** 52 + 0.5, 1e100])
    if k == 6: return np.float64(r.choice([0.25, 1 / 3, r.uniform(-2, 2)]))
    if params and k >= 7:
        a = r.choice(list(params.values()))
        return r.choice([a, a, -a, a + 1, 2 * a, a * 0.5 - 0.25, 1 - a])
    return round(r.uniform(0, 2), 3)

def params(r): return {n: Placeholder(n) for n in ("alpha", "beta", "x_1")}

@P.bounded("text of single angles", ["graphix/instruction.py:repr_angle"], lambda rng, tier: G.seeds(rng), "30 numbers per case: simple fractions, their neighbours in floating point, tiny and huge ones", quick=4)
def angle_text(case):
    r = random.Random(case[0])
    for _ in range(30):
        a = some_angle(r); i = r.choice([instruction.RX, instruction.RY, instruction.RZ, instruction.J])(r.randrange(9), a)
        if r.random() < 0.3: i = instruction.RZZ(3, 4, a)
        try: b = ev(repr(i), IENV)
        except Exception as e: return f"{i!r} (angle {a!r}): {type(e).__name__}: {e}"  # noqa: BLE001
        if b != i: return f"{i!r} (angle {a!r}) evaluates to angle {b.angle!r}"

@P.bounded("text of patterns", ["graphix/pattern.py:Pattern.__repr__", "graphix/command.py", "graphix/measurements.py"], lambda rng, tier: G.seeds(rng), "random patterns of up to 7 nodes with every command kind, arbitrary angles, parameters and states", quick=6)
def pattern_text(case):
    r = random.Random(case[0]); ps = params(r)
    def meas(r):
        if r.random() < 0.3: return G.measurement(r)
        return BlochMeasurement(some_angle(r, ps), r.choice(list(Plane)))
    p = G.pattern(r, r.randint(1, 7), meas=meas, signals=0.3, ticks=0.2, cliffords=0.3)
    q = Pattern(input_nodes=p.input_nodes)
    for c in p:
        if isinstance(c, command.N) and r.random() < 0.4: c = command.N(c.node, PlanarState(r.choice(list(Plane)), some_angle(r)))
        q.add(c)
    outs = list(p.output_nodes); r.shuffle(outs); q.reorder_output_nodes(outs)
    try: b = ev(repr(q), CENV, **ps)
    except Exception as e: return f"{q!r}: {type(e).__name__}: {e}"  # noqa: BLE001
    if b != q or list(b) != list(q) or b.input_nodes != q.input_nodes or b.output_nodes != q.output_nodes: return f"{q!r} evaluates to {b!r}"
    for c in q:
        b = ev(repr(c), CENV, **ps)
        if b != c or type(b) is not type(c): return f"{c!r} evaluates to {b!r}"

@P.bounded("text of circuits", ["graphix/transpiler.py:Circuit.__repr__", "graphix/instruction.py"], lambda rng, tier: G.seeds(rng), "random circuits of up to 4 qubits and 10 instructions, arbitrary angles and parameters", quick=5)
def circuit_text(case):
    r = random.Random(case[0]); ps = params(r)
    c = G.circuit(r, r.randint(1, 4), r.randint(0, 10), measure=0.2, angle_fn=lambda rr: some_angle(rr, ps))
    try: b = ev(repr(c), IENV, **ps)
    except Exception as e: return f"{c!r}: {type(e).__name__}: {e}"  # noqa: BLE001
    if b.width != c.width or b.instruction != c.instruction or b.active_qubits != c.active_qubits: return f"{c!r} evaluates to {b!r}"
    if [type(i) for i in b.instruction] != [type(i) for i in c.instruction]: return f"{c!r}: other classes"

def snapshot(p): return repr(p), [(_copy.deepcopy({k: (sorted(v) if isinstance(v, set) else v) for k, v in vars(c).items() if mutable(v)})) for c in p]

@P.bounded("independence of copies", ["graphix/pattern.py:Pattern.copy"], lambda rng, tier: G.seeds(rng), "random patterns of up to 7 nodes: every mutable part of the copy (or of the original) is changed, the other must not change", quick=4)
def independent(case):
    r = random.Random(case[0])
    p = G.pattern(r, r.randint(1, 7), signals=0.3, ticks=0.2); q = p.copy()
    if q != p or q.n_node != p.n_node: return f"{p!r}: the copy is {q!r}"
    a, b = (p, q) if r.random() < 0.5 else (q, p)
    s = snapshot(a)
    for c in b:
        for v in vars(c).values():
            if isinstance(v, set): v.symmetric_difference_update({10 ** 6, r.randrange(9)})
            elif isinstance(v, list): v.append(0)
        if hasattr(c, "node"): c.node = 10 ** 6 + 1
    if r.random() < 0.5: b.add(command.N(10 ** 6 + 2))
    if r.random() < 0.5 and b.output_nodes: b.reorder_output_nodes(list(reversed(b.output_nodes)))
    if r.random() < 0.3: b.clear()
    if snapshot(a) != s: return f"{s[0]} became {a!r} when its copy (or original) was changed"

@P.bounded("copy arguments", ["graphix/pattern.py:Pattern.reindex, apply, subs", "graphix/transpiler.py:Circuit.visit, apply_angle"], lambda rng, tier: G.seeds(rng), "random patterns and circuits with parameters: copy=True leaves the original as it was and yields what the in-place call yields", quick=4)
def copy_args(case):
    r = random.Random(case[0]); ps = params(r)
    def meas(r): return G.measurement(r) if r.random() < 0.3 else BlochMeasurement(some_angle(r, ps), r.choice(list(Plane)))
    p = G.pattern(r, r.randint(1, 6), meas=meas); s = snapshot(p)
    ops = [("blochify", lambda x, k: x.blochify(copy=k)), ("infer_pauli_measurements", lambda x, k: x.infer_pauli_measurements(copy=k)),
           ("replace_parameter", lambda x, k: x.replace_parameter(ps["alpha"], 0.5, copy=k)), ("reindex", lambda x, k: x.reindex(lambda v: v + 100, copy=k)),
           ("replace_parameters", lambda x, k: x.replace_parameters({ps["alpha"]: 0.25, ps["beta"]: ps["alpha"]}, copy=k))]
    n, f = r.choice(ops)
    q = f(p, True)
    if snapshot(p) != s: return f"{n}(copy=True) changed {s[0]} to {p!r}"
    if q is p: return f"{n}(copy=True) returned the pattern itself"
    w = p.copy(); x = f(w, False)
    if x is not w or w != q: return f"{n} of {p!r}: copy {q!r}, in place {w!r}"
    c = G.circuit(r, r.randint(1, 4), r.randint(0, 8), measure=0.2, angle_fn=lambda rr: some_angle(rr, ps)); t = repr(c)
    d = c.apply_angle(lambda a: a * 2, copy=True)
    if repr(c) != t: return f"apply_angle(copy=True) changed {t} to {c!r}"
    if any(a is b for a, b in zip(c.instruction, d.instruction)): return f"{t}: shared instructions"
    act = set(d.active_qubits); e = c.apply_angle(lambda a: a * 2)
    if e is not c or c.instruction != d.instruction or c.active_qubits != act: return f"apply_angle of {t}: copy {d!r}, in place {c!r}"
