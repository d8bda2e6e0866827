from __future__ import annotations
import itertools, math, random, re, types
import numpy as np
from gv import boot, csim, gen as G, mats as M, psim  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.exact import Ang, Var, isinst, lp_array, proportional
from gv.extract import rebind
from graphix import command as cm, instruction as I, qasm3_exporter as qx
from graphix.clifford import Clifford
from graphix.command import CommandKind as K
from graphix.fundamentals import Axis, Plane, Sign
from graphix.instruction import InstructionKind as IK
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.pattern import Pattern
from graphix.states import BasicStates
from graphix.transpiler import Circuit

Q = "graphix/qasm3_exporter.py:"
P = Prop("C26", "proof",
    "The statements emitted for one instruction or command are read by an independent OpenQASM 3 interpreter and compared exactly (all angles, all outcome bits, all placements) with the instruction or command; "
    "programs are the concatenation of these statements (recording stand-ins). The decimal or fractional text of an angle is bounded. RZZ is a known finding, compared under the reading its importer uses.",
    ["statements act in sequence", "text of floats: enumerated fractions and random floats"], ["the OpenQASM 3 interpreter of this file"])

# -- interpreter ------------------------------------------------------------------------------------------------------------
G1 = {"h": M.H, "x": M.X, "y": M.Y, "z": M.Z, "s": M.S, "sdg": M.SDG, "id": M.I2}
class QasmError(Exception): pass

def angle_val(t, env):
    """Value, in units of pi, of an angle expression."""
    if t in env: return env[t]
    if not re.fullmatch(r"[-+*/().0-9epi ]+", t): raise QasmError(f"angle {t!r}")
    try: return eval(t, {"__builtins__": {}}, {"pi": math.pi}) / math.pi
    except Exception as e: raise QasmError(f"angle {t!r}: {e}") from None

class Interp:
    """Runs a program; `outcomes`: classical bit -> outcome of its measurement; qubits of `inputs` are given, not declared as |0>."""
    def __init__(self, outcomes, inputs=(), env=None, symbolic=False, bits=None, rzz=False):
        self.sim = psim.Sim(list(inputs), symbolic); self.inputs = set(inputs); self.out = outcomes; self.bits = dict(bits or {}); self.declared = set(bits or {}); self.env = env or {}; self.rzz = rzz; self.reg = {}; self.measured = []; self.sym = symbolic
    def q(self, n):
        n = n.strip()
        if n not in self.sim.nodes: raise QasmError(f"no qubit {n}")
        return n
    def run(self, text):
        lines = []
        for l in text.split("\n"):
            lines.append(l.split("//")[0])
        self.block("\n".join(lines)); return self
    def block(self, s):
        i = 0
        while i < len(s):
            if s[i].isspace(): i += 1; continue
            m = re.compile(r"if\s*\(").match(s, i)
            if m:
                j = s.index("{", i); e = s.index("}", j); cond = s[m.end():s.rindex(")", i, j)]
                if self.cond(cond): self.block(s[j + 1:e])
                i = e + 1; continue
            j = s.find(";", i)
            if j < 0: raise QasmError(f"unterminated {s[i:]!r}")
            self.stmt(" ".join(s[i:j].split())); i = j + 1
    def cond(self, c):
        v = 0
        for t in c.split("^"):
            t = t.strip()
            if t not in self.bits: raise QasmError(f"bit {t} is read before it is measured")
            v ^= self.bits[t]
        return v
    def stmt(self, s):
        if s.startswith("OPENQASM 3") or s == 'include "stdgates.inc"': return
        m = re.fullmatch(r"(qubit|bit)(?:\[(\d+)\])? (\w+)", s)
        if m:
            k, n, nm = m.groups()
            if (k, nm) in self.declared: raise QasmError(f"{nm} is declared twice")
            self.declared.add((k, nm)); names = [nm] if n is None else [f"{nm}[{i}]" for i in range(int(n))]
            if k == "bit": self.declared |= set(names)
            elif not self.inputs & set(names):
                for x in names: self.sim.prep(x, np.array([1, 0]))
            return
        m = re.fullmatch(r"(\S+) = measure (\S+)", s)
        if m:
            b, q = m.groups(); self.q(q)
            if b not in self.declared: raise QasmError(f"undeclared bit {b}")
            o = self.out[b] if isinstance(self.out, dict) else self.out[len(self.measured)]
            self.bits[b] = o; self.measured.append(b); self.sim.project(q, np.array([1 - o, o], dtype=complex), o); return
        m = re.fullmatch(r"(\w+)(?:\((.*)\))? (\S.*)", s)
        if not m: raise QasmError(f"statement {s!r}")
        g, a, ops = m.groups(); qs = [self.q(o) for o in ops.split(",")]
        if len(set(qs)) != len(qs): raise QasmError(s)
        if g in G1 and a is None: mat, n = G1[g], 1
        elif g in ("rx", "ry", "rz") and a is not None: mat, n = csim.gate(getattr(I, g.upper())(0, angle_val(a, self.env)))[0], 1
        elif g in ("cx", "cz", "swap") and a is None: mat, n = {"cx": M.CNOT, "cz": M.CZ, "swap": M.SWAP}[g], 2
        elif g == "ccx" and a is None: mat, n = M.CCX, 3
        elif g == "crz" and a is not None:
            v = angle_val(a, self.env)
            if self.rzz: mat, n = csim.gate(I.RZZ(0, 1, v))[0], 2
            else:
                r = csim.gate(I.RZ(0, v))[0]; n = 2
                mat = np.zeros((4, 4), dtype=r.dtype); mat[0, 0] = mat[1, 1] = 1; mat[2:, 2:] = r
        elif g == "rzz" and a is not None: mat, n = csim.gate(I.RZZ(0, 1, angle_val(a, self.env)))[0], 2
        else: raise QasmError(f"gate {s!r}")
        if len(qs) != n: raise QasmError(f"operands {s!r}")
        self.sim.op(lp_array(mat) if self.sym and mat.dtype != object else mat, qs)

def sym_angles(fn, **kw):
    """The real function with the text of angles replaced by names of symbolic angles."""
    env = {}
    def text(a):
        n = f"A{len(env)}"; env[n] = a; return n
    return rebind(fn, angle_to_qasm3=text, **kw), env

A = Var("a")
@P.proof("instructions", [Q + f for f in ("instruction_to_qasm3", "qasm3_qubit", "qasm3_gate_call")], "exact algebra in e^{i pi a}; independent interpreter")
def instrs(ob):
    for q in itertools.permutations((0, 1, 12), 3):
        x, y, z = q; order = sorted(q)
        for g in (I.CCX(x, (y, z)), I.RZZ(x, y, A), I.CNOT(x, y), I.CZ((x, y)), I.SWAP((x, y)), I.H(x), I.S(x), I.X(x), I.Y(x), I.Z(x), I.I(x), I.RX(x, A), I.RY(x, A), I.RZ(x, A)):
            f, env = sym_angles(qx.instruction_to_qasm3); t = f(g)
            sim = Interp((), [f"q[{i}]" for i in order], env, True, rzz=True).run(t + ";").sim
            want = psim.Sim(order, True); m, qs = csim.gate(g); want.op(lp_array(m) if m.dtype != object else m, qs)
            real = None
            if g.kind in (IK.RX, IK.RY, IK.RZ): real = lambda a, k=g.kind.name, x=x: M.phase_equal(Interp((), [f"q[{x}]"]).run(qx.instruction_to_qasm3(getattr(I, k)(x, a)) + ";").sim.out([f"q[{x}]"]), csim.unitary([getattr(I, k)(0, a)], 1))
            ob.exact(f"{g.kind.name} on {q}" + (" (crz read as RZZ)" if g.kind == IK.RZZ else "") + ": the statement is the gate, for all angles", proportional(sim.out([f"q[{i}]" for i in order]), want.out(order)), ["a"] if real else [], real)
        t = qx.instruction_to_qasm3(I.M(x, Axis.Z))
        for o in (0, 1):
            it = Interp({f"b[{x}]": o}, [f"q[{i}]" for i in order]); it.declared.add(f"b[{x}]"); it.run(t + ";")
            want = psim.Sim(order); want.project(x, csim.EIG["Z"][o], o)
            ob.check(f"measurement of {x}: bit {x}, outcome {o}", it.bits == {f"b[{x}]": o} and np.allclose(it.sim.out([f"q[{i}]" for i in order if i != x]), want.out([i for i in order if i != x])))
        for g in (I.M(x, Axis.X), I.M(x, Axis.Y), I.J(x, .3)):
            try: qx.instruction_to_qasm3(g); ok = False
            except ValueError: ok = True
            ob.check(f"{g.kind.name} that OpenQASM lacks is refused", ok)
    for s in (A, A + .5):
        try: qx.angle_to_qasm3(s); ok = False
        except TypeError: ok = True
        ob.check("symbolic angles are refused", ok)

@P.proof("circuit programs", [Q + "circuit_to_qasm3_lines", Q + "circuit_to_qasm3"], "recording stand-ins")
def circs(ob):
    class T:
        def __init__(self, n, k=IK.H): self.n = n; self.kind = k
    for w in range(0, 4):
        for kinds in itertools.product((IK.H, IK.M), repeat=3):
            ins = [T(f"g{i}", k) for i, k in enumerate(kinds)]
            base = types.SimpleNamespace(width=w, instruction=ins); log = []
            z = types.SimpleNamespace(transpile_measurements_to_z_axis=lambda: log.append("z") or base); top = types.SimpleNamespace(transpile_j_to_rzh=lambda: log.append("j") or z)
            f = rebind(qx.circuit_to_qasm3_lines, instruction_to_qasm3=lambda i: i.n)
            want = ["OPENQASM 3;", 'include "stdgates.inc";', f"qubit[{w}] q;"] + ([f"bit[{w}] b;"] if IK.M in kinds else []) + [i.n + ";" for i in ins]
            ob.structural(f"program of {[k.name for k in kinds]} on {w} qubits", list(f(base, transpile=False)) == want and list(f(top)) == want and log == ["j", "z"])
    g = rebind(qx.circuit_to_qasm3, circuit_to_qasm3_lines=lambda c, transpile: iter(["a", "b", str(transpile)]))
    ob.structural("lines are joined", g(None) == "a\nb\nTrue" and g(None, transpile=False) == "a\nb\nFalse")

class Nd:
    """An opaque node: only its text and identity."""
    def __init__(self, n): self.n = n
    def __str__(self): return self.n
    def __format__(self, s): return self.n
    def __repr__(self): return self.n
    def __lt__(self, o): return self.n < o.n if isinstance(o, Nd) else NotImplemented

@P.proof("conditionals", [Q + "domain_to_qasm3_lines"], "all subsets of opaque nodes, all outcome bits")
def conds(ob):
    for k in range(0, 6):
        nodes = [Nd(f"n{i}") for i in range(k)]
        for dom in (set(nodes), frozenset(nodes), list(nodes), tuple(nodes), dict.fromkeys(nodes).keys()):
            t = "".join(qx.domain_to_qasm3_lines(dom, "x q7"))
            for bits in itertools.product((0, 1), repeat=k):
                it = Interp({}, ["q7"], bits={f"cn{i}": b for i, b in enumerate(bits)}).run(t)
                ob.check(f"parity of {k} nodes ({type(dom).__name__}), bits {bits}", np.allclose(it.sim.out(["q7"]), M.X if sum(bits) % 2 else np.eye(2)))

@P.proof("commands", [Q + "command_to_qasm3_lines", Q + "state_to_qasm3_lines"], "exact algebra in e^{i pi a}, all outcome bits; independent interpreter")
def cmds(ob):
    nds = [3, 9]
    def text(cmd):
        f, env = sym_angles(qx.command_to_qasm3_lines); return "".join(f(cmd)), env
    def compare(cmd, tag, inputs, outs, o=0, vars=(), real=None):
        t, env = text(cmd)
        for bits in itertools.product((0, 1), repeat=2):
            bt = dict(zip(nds, bits))
            it = Interp({"c7": o}, [f"q{i}" for i in inputs], env, True, bits={f"c{n}": b for n, b in bt.items()}).run(t)
            want = psim.Sim(inputs, True); want.res.update(bt); psim.run_commands(want, [cmd], {7: o})
            ob.exact(f"{tag}, bits {bits} outcome {o}: the statements are the command" + (", for all angles" if vars else ""), proportional(it.sim.out([f"q{i}" for i in outs]), want.out(outs)), list(vars), real)
            if cmd.kind == K.M: ob.check(f"{tag}: the outcome is recorded", it.bits == {**{f"c{n}": b for n, b in bt.items()}, "c7": o})
    for d in (set(), {3}, {9}, {3, 9}):
        for k in (cm.X, cm.Z): compare(k(7, d), f"{k.__name__} {d}", [7, 1], [7, 1])
        for d2 in (set(), {3}, {9}, {3, 9}):
            for o in (0, 1):
                for pl in Plane:
                    def real(a, pl=pl, d=d, d2=d2, o=o):
                        c = cm.M(7, BlochMeasurement(a, pl), d, d2); it = Interp({"c7": o}, ["q7"], bits={"c3": 1, "c9": 0}).run("".join(qx.command_to_qasm3_lines(c)))
                        w = psim.Sim([7]); w.res.update({3: 1, 9: 0}); psim.run_commands(w, [c], {7: o}); return M.prop_equal(it.sim.out([]), w.out([]))
                    compare(cm.M(7, BlochMeasurement(A, pl), d, d2), f"M {pl.name} s {d} t {d2}", [7, 1], [1], o, ["a"], real)
                    compare(cm.M(7, BlochMeasurement(0, pl), d, d2), f"M {pl.name} angle 0 s {d} t {d2}", [7, 1], [1], o)
                for ax in Axis:
                    for s in Sign: compare(cm.M(7, PauliMeasurement(ax, s), d, d2), f"M {s}{ax.name} s {d} t {d2}", [7, 1], [1], o)
    compare(cm.E((7, 1)), "E", [7, 1, 2], [7, 1, 2]); compare(cm.E((1, 7)), "E", [7, 1, 2], [7, 1, 2])
    for c in Clifford: compare(cm.C(7, c), f"Clifford {c}", [7, 1], [7, 1])
    for st in (BasicStates.ZERO, BasicStates.PLUS): compare(cm.N(7, st), f"N {st}", [1], [7, 1])
    for st in (BasicStates.ONE, BasicStates.MINUS, BasicStates.PLUS_I, BasicStates.MINUS_I):
        try: "".join(qx.command_to_qasm3_lines(cm.N(7, st))); ok = False
        except ValueError: ok = True
        ob.check(f"preparation in {st} is refused", ok)
    for c in (cm.S(7, {3}), cm.T()):
        try: t = "".join(qx.command_to_qasm3_lines(c)); ok = not [l for l in t.split("\n") if l and not l.startswith("//")] and c.kind == K.T
        except ValueError: ok = True
        ob.check(f"{c.kind.name} is refused", ok)

@P.proof("pattern programs", [Q + "pattern_to_qasm3_lines", Q + "pattern_to_qasm3"], "recording stand-ins")
def pats(ob):
    class Pat(list): pass
    for n in range(3):
        for mode in ("one", "dict"):
            p = Pat([Nd(f"cmd{i}") for i in range(3)]); p.input_nodes = [Nd(f"i{i}") for i in range(n)]
            st = BasicStates.ZERO if mode == "one" else {v: (BasicStates.ZERO if i else BasicStates.PLUS) for i, v in enumerate(p.input_nodes)}
            got = {}
            f = rebind(qx.pattern_to_qasm3_lines, command_to_qasm3_lines=lambda c: iter([f"<{c}>"]), state_to_qasm3_lines=lambda v, s: iter([f"[{v}]"]) if got.setdefault(v, s) is s else iter(()))
            t = "".join(f(p, st)); body = "".join(l for l in t.split("\n") if not l.startswith("//") and not l.startswith("OPENQASM") and not l.startswith("include"))
            ob.structural(f"program with {n} inputs ({mode}): inputs prepared in order, then the commands in order", body == "".join(f"qubit qi{i};[i{i}]" for i in range(n)) + "<cmd0><cmd1><cmd2>" and got == {v: st if mode == "one" else st[v] for v in p.input_nodes})
    g = rebind(qx.pattern_to_qasm3, pattern_to_qasm3_lines=lambda p, input_state: iter(["a", str(input_state)]))
    ob.structural("lines are joined", g(None, "s") == "as" and g(None) == f"a{BasicStates.PLUS}")

@P.proof("text of an angle", [Q + "angle_to_qasm3", "graphix/pretty_print.py:angle_to_str"], "z3 over all numerators and denominators, opaque floats")
def angle_text(ob):
    """For every finite angle: either the fraction found for it is close to it (contract of Fraction.limit_denominator and math.isclose: relative error 1e-9) and the text is
    an OpenQASM expression with exactly the value of the fraction times pi, or the text is that of the float angle_to_rad returns."""
    from graphix import pretty_print as pp, parameter
    from gv.angletext import FF, Int, Val
    z3 = boot.z3(); n, d, V = z3.Real("n"), z3.Real("d"), z3.Real("V")
    class FVal(Val, float):      # passes the check of the type
        def __new__(cls, eq): return float.__new__(cls, .123)
        def _no(self, *a): raise Unfit("arithmetic on the angle")
        __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __lt__ = __gt__ = __le__ = __ge__ = __round__ = __int__ = __bool__ = _no
    atom = re.compile(r"\s*(\d+|n|d|pi|[-+*/()])")
    def value(t):
        """recursive descent over the grammar of OpenQASM expressions used here; None: not such an expression"""
        toks, i = [], 0
        while i < len(t):
            m = atom.match(t, i)
            if not m: return None
            toks.append(m.group(1)); i = m.end()
        toks.append("")
        def prim():
            x = toks.pop(0)
            if x == "-": return -prim()
            if x == "(":
                v = add()
                if toks.pop(0) != ")": raise QasmError
                return v
            if x.isdigit(): return z3.RealVal(int(x))
            if x in ("n", "d"): return {"n": n, "d": d}[x]
            if x == "pi": return z3.RealVal(1)
            raise QasmError
        def mul():
            v = prim()
            while toks[0] in ("*", "/"): v = v * prim() if toks.pop(0) == "*" else v / prim()
            return v
        def add():
            v = mul()
            while toks[0] in ("+", "-"): v = v + mul() if toks.pop(0) == "+" else v - mul()
            return v
        try: v = add()
        except QasmError: return None
        return v if toks == [""] and t.count("pi") == 1 or t == "0" else None
    for cls, dc, near in itertools.product(("m", "-1", "0", "1", "p"), ("1", "p"), (True, False)):
        if cls == "0" and dc == "p": continue      # reduced fractions
        label = f"numerator {cls}, denominator {dc}, {'close to' if near else 'not'} the angle"
        try:
            class Frac:
                def __init__(self, v):
                    if not isinstance(v, Val): raise Unfit("fraction of something else")
                def limit_denominator(self, k=1000000): return self
                numerator, denominator = Int(cls, "n"), Int(dc, "d")
            class Mth:
                @staticmethod
                def isclose(a, b, **k):
                    if {type(a), type(b)} != {FVal, FF} or k.get("rel_tol", 1e-9) > 1e-9 or k.get("abs_tol", 0): raise Unfit("isclose")
                    return near
            def flt(x):
                if isinstance(x, Frac): return FF()
                if isinstance(x, FVal): return x
                raise Unfit("float")
            def rad(x):
                if not isinstance(x, FVal): raise Unfit("radians of something else")
                return 0.81234567890123
            text = rebind(qx.angle_to_qasm3, angle_to_str=rebind(pp.angle_to_str, Fraction=Frac, float=flt, math=Mth, angle_to_rad=rad))(FVal(near))
            if not near: ok = text == "0.81234567890123"
            else:
                want = {"m": -n, "-1": z3.RealVal(-1), "0": z3.RealVal(0), "1": z3.RealVal(1), "p": n}[cls] / (d if dc == "p" else z3.RealVal(1)); got = value(text)
                s = z3.Solver(); s.set("timeout", 20000); s.add(n >= 2, d >= 2)
                if got is not None: s.add(got != want)
                ok = got is not None and s.check() == z3.unsat
        except Exception as e: ok = False      # noqa: BLE001
        num = {"m": -3, "-1": -1, "0": 0, "1": 1, "p": 3}[cls] / (4 if dc == "p" else 1) if near else math.sqrt(2) / 3
        try: good = abs(angle_val(qx.angle_to_qasm3(num), {}) - num) < 1e-8
        except Exception: good = False      # noqa: BLE001
        if not ok and not good: ob.check(f"{label}: the text has the value of the angle", False, dict(angle=num))
        else: ob.structural(f"{label}: the text has the value of the angle", ok)
    for x in (parameter.Placeholder("a"), parameter.Placeholder("a") + 1, "1", None):
        try: qx.angle_to_qasm3(x); ok = False
        except TypeError: ok = True
        ob.check(f"an angle that is not a number is refused: {x!r}", ok)

# -- bounded ------------------------------------------------------------------------------------------------------------------
def acases(rng, tier):
    for den in [*range(1, 41), 64, 100, 360, 500, 720, 999, 1000, 1001, 1024]:
        for num in ([*range(-2 * den - 1, 2 * den + 2)] if den <= 40 else [rng.randrange(-3 * den, 3 * den) for _ in range(40)]): yield [num / den]
    for x in (0, 1, -1, 2, 1e-3, 1e-9, 1e-12, -1e-7, 1e-5, 1e-6 / 7, 1 / 3 + 1e-8, 1 / 3 + 1e-10, .5 + 1e-9, 1e6 + .1, 12345.678, 1 - 1e-12, 1e-300): yield [x]
    while True: yield [rng.choice([rng.uniform(-3, 3), rng.gauss(0, 1) * 10 ** rng.randrange(-12, 5)])]

@P.bounded("text of angles", [Q + "angle_to_qasm3", "graphix/pretty_print.py:angle_to_str"], acases, "fractions with denominators <= 40 and others, tiny and large floats, random floats; relative error 1e-8", quick=4, thorough=60)
def angles(case):
    a = case[0]; t = qx.angle_to_qasm3(a); v = angle_val(t, {})
    assert abs(v - a) <= 1e-8 * max(abs(a), 1e-300) or abs(v - a) < 1e-300, f"angle {a} is written {t!r}"

def check_circuit(c, r, **kw):
    before = [repr(i) for i in c.instruction]; t = qx.circuit_to_qasm3(c, **kw); k = csim.n_meas(c)
    assert [repr(i) for i in c.instruction] == before, "the circuit was modified"
    ms = [i.target for i in c.instruction if i.kind == IK.M]
    for o in psim.outcomes_iter(list(range(k)), 16, r):
        out = {f"b[{ms[i]}]": v for i, v in o.items()}; names = [f"q[{i}]" for i in range(c.width)]
        want = csim.run(c, [o[i] for i in range(k)])
        def prog(rzz):
            it = Interp(out, names, rzz=rzz).run(t); assert sorted(it.sim.nodes) == sorted(f"q[{i}]" for i in range(c.width) if i not in ms), "qubits left"
            return it.sim.out([f"q[{i}]" for i in range(c.width) if i not in ms])
        try: got = prog(False)
        except QasmError as e: raise AssertionError(f"{e} in\n{t}") from None
        if not M.phase_equal(got, want):
            if "crz(" in t and M.phase_equal(prog(True), want): raise AssertionError(f"crz-for-RZZ: {t}")
            raise AssertionError(f"the program is not the circuit, outcomes {o}:\n{t}\n{c}")

@P.bounded("circuits", [Q + "circuit_to_qasm3", "graphix/transpiler.py:Circuit.transpile_j_to_rzh", "graphix/transpiler.py:Circuit.transpile_measurements_to_z_axis"],
           lambda rng, tier: itertools.chain([[1, 2, 3, "rzz"]], G.seeds(rng, lambda r: r.randrange(1, 5), lambda r: r.randrange(0, 9), lambda r: r.choice(["", "", "meas", "plain"]))), "random circuits on <= 4 qubits, <= 8 gates, measurements in all axes", quick=7, thorough=90)
def circuits(case):
    seed, w, d, mode = case; r = random.Random(seed)
    if mode == "rzz": c = Circuit(2, [I.RZZ(0, 1, .3)])
    else:
        ks = ["H", "S", "X", "Y", "Z", "I", "RX", "RY", "RZ", "J", "CNOT", "CZ", "SWAP", "CCX"]
        c = G.circuit(r, w, d, kinds=[k for k in ks if mode != "plain" or k != "J"], measure=.25 if mode == "meas" else 0)
    check_circuit(c, r, **({"transpile": False} if mode == "plain" else {}))

@P.bounded("patterns", [Q + "pattern_to_qasm3"], lambda rng, tier: G.seeds(rng, lambda r: r.randrange(1, 7), lambda r: r.choice(["rand", "rand", "circ", "opt"])), "random runnable patterns on <= 6 nodes and patterns of circuits (also with inferred and removed Pauli measurements), 8 branches", quick=9, thorough=120)
def patterns(case):
    seed, n, mode = case; r = random.Random(seed)
    if mode == "rand":
        p = G.pattern(r, n, states=False, cliffords=.25, ticks=0)
        cs = [cm.N(c.node, r.choice([BasicStates.ZERO, BasicStates.PLUS])) if c.kind == K.N and r.random() < .4 else c for c in p]
        q = Pattern(input_nodes=p.input_nodes); q.extend(cs); q.reorder_output_nodes(p.output_nodes); p = q
    else:
        p = G.circuit(r, r.randrange(1, 3), r.randrange(1, 4), kinds=["H", "S", "RX", "RZ", "J", "CNOT", "CZ", "SWAP"]).transpile().pattern
        if mode == "opt":
            p = p.infer_pauli_measurements() or p
            if r.random() < .6: p = p.remove_pauli_measurements() or p
    sts = [BasicStates.ZERO, BasicStates.PLUS]
    inp = r.choice(sts) if r.random() < .5 else {v: r.choice(sts) for v in p.input_nodes}
    try: t = qx.pattern_to_qasm3(p, inp)
    except ValueError:
        if any(c.kind == K.N and c.state not in sts for c in p): return "skip"
        raise
    vec = np.ones(1)
    for v in p.input_nodes: vec = np.kron(vec, (inp[v] if isinstance(inp, dict) else inp).to_statevector_numpy())
    for o in psim.outcomes_iter(psim.measured(p), 8, r):
        u, res = psim.branch(p, o); want = (u @ vec).reshape(-1, 1)
        try: it = Interp({f"c{v}": b for v, b in o.items()}).run(t)
        except QasmError as e: raise AssertionError(f"{e} in\n{t}") from None
        assert set(it.sim.nodes) == {f"q{v}" for v in p.output_nodes}, "qubits left"
        got = it.sim.out([f"q{v}" for v in p.output_nodes]).reshape(-1, 1)
        assert M.phase_equal(got, want) or np.linalg.norm(got) + np.linalg.norm(want) < 1e-9, f"branch {o}: the program is not the pattern\n{t}"
