from __future__ import annotations
import itertools, math, cmath
import numpy as np
from gv import boot, mats as M, exact  # noqa: F401
from gv.core import Prop, need
from gv.extract import rebind, NP, MathProxy, CMathProxy
from graphix.fundamentals import Axis, ComplexUnit, I, Plane, Sign, IXYZ_VALUES, angle_to_rad, rad_to_angle
from graphix.ops import Ops
from graphix.parameter import ExpressionWithTrigonometry
from graphix.pauli import Pauli
from graphix.states import BasicStates, PlanarState

P = Prop("C02", "proof",
    "Finite algebra (signs, units, 16 Paulis, axes, planes) by complete enumeration over the real functions; planar states, "
    "polar coordinates and rotation matrices for every angle by exact evaluation of the real functions on an arbitrary angle "
    "(trigonometric polynomials), on both the numeric and the symbolic code path. Scalars between the fourth roots of unity and "
    "numeric agreement on floats are bounded.",
    ["floating-point coefficients compared with tolerance 1e-9; math/cmath/numpy cos, sin, exp are the mathematical functions"],
    ["matrix algebra of gv/mats.py"])
FU, PA, OP, ST = "graphix/fundamentals.py:", "graphix/pauli.py:Pauli.", "graphix/ops.py:Ops.", "graphix/states.py:"
close = lambda a, b: np.allclose(a, b, atol=1e-9)
SG, CU, PAULIS = list(Sign), list(ComplexUnit), list(Pauli)
val = {Sign.PLUS: 1, Sign.MINUS: -1}
cval = {ComplexUnit.ONE: 1, ComplexUnit.J: 1j, ComplexUnit.MINUS_ONE: -1, ComplexUnit.MINUS_J: -1j}
MAT = {Axis.X: M.X, Axis.Y: M.Y, Axis.Z: M.Z, I: M.I2}
pmat = lambda p: cval[p.unit] * MAT[p.symbol]

@P.proof("signs", [FU + "Sign.__mul__", FU + "Sign.__rmul__", FU + "Sign.__neg__", FU + "Sign.plus_if", FU + "Sign.minus_if",
                   FU + "Sign.__int__", FU + "Sign.__float__", FU + "Sign.__complex__"])
def _(ob):
    ob.total("values", ((s.name, int(s) == val[s] and float(s) == val[s] and complex(s) == val[s] and type(int(s)) is int
                         and type(float(s)) is float and type(complex(s)) is complex) for s in SG))
    ob.total("product", (((a.name, b.name), (a * b) in SG and val[a * b] == val[a] * val[b]) for a in SG for b in SG))
    ob.total("negation", ((a.name, val[-a] == -val[a]) for a in SG))
    ob.total("plus_if / minus_if", ((b, Sign.plus_if(b) == (Sign.PLUS if b else Sign.MINUS) and Sign.minus_if(b) == (Sign.MINUS if b else Sign.PLUS)) for b in (True, False)))
    nums = [0, 1, -1, 7, -12345678901234567890, 0.5, -2.25, 1e300, 1j, -3 + 2j, 2.5 - 0.5j]
    ob.total("product with int, float, complex (same type)", (((a.name, x), (a * x) == val[a] * x and (x * a) == val[a] * x
             and type(a * x) is type(x) and type(x * a) is type(x)) for a in SG for x in nums))
    ob.total("str", ((a.name, str(a) == ("+" if a is Sign.PLUS else "-")) for a in SG))

@P.proof("units", [FU + "ComplexUnit.__mul__", FU + "ComplexUnit.__rmul__", FU + "ComplexUnit.__neg__", FU + "ComplexUnit.from_properties",
                   FU + "ComplexUnit.sign", FU + "ComplexUnit.is_imag", FU + "ComplexUnit.__complex__", FU + "ComplexUnit.from_or_none"])
def _(ob):
    ob.check("four units with distinct values", len(CU) == 4)
    ob.total("complex value", ((u.name, close(complex(u), cval[u])) for u in CU))
    ob.total("product", (((a.name, b.name), cval[a * b] == cval[a] * cval[b]) for a in CU for b in CU))
    ob.total("negation", ((u.name, cval[-u] == -cval[u]) for u in CU))
    ob.total("sign and is_imag", ((u.name, val[u.sign] * (1j if u.is_imag else 1) == cval[u]) for u in CU))
    ob.total("from_properties", (((s.name, im), cval[ComplexUnit.from_properties(sign=s, is_imag=im)] == val[s] * (1j if im else 1)) for s in SG for im in (False, True)))
    ob.check("from_properties defaults", ComplexUnit.from_properties() is ComplexUnit.ONE)
    nums = [1, -1, 1j, -1j, 1.0, -1.0, complex(1), complex(-1), np.complex128(1j), np.float64(-1), Sign.MINUS, Sign.PLUS, True]
    ob.total("product with a number that is a unit, on either side",
             (((u.name, str(x)), cval[u * x] == cval[u] * complex(x)) for u in CU for x in nums))
    ob.total("product on the right with a Python number", (((u.name, str(x)), cval[x * u] == cval[u] * complex(x)) for u in CU for x in nums[:8]))
    ob.total("from_or_none on units and their values", ((str(x), cval[ComplexUnit.from_or_none(x)] == complex(x)) for x in [*nums, *(complex(u) for u in CU)]))
    ob.total("from_or_none keeps units", ((u.name, ComplexUnit.from_or_none(u) is u) for u in CU))
    bad = [0, 2, 1 + 1j, 0.999, -1j * 1.001, 0.5j, float("inf"), 1 + 1e-6]
    def rejects(u, x):
        try:
            u * x
        except TypeError:
            return True
        return False
    ob.total("other numbers are not units", ((str(x), ComplexUnit.from_or_none(x) is None and all(rejects(u, x) for u in CU)) for x in bad))

@P.proof("paulis", [PA + "__matmul__", PA + "__mul__", PA + "__rmul__", PA + "__neg__", PA + "matrix", PA + "from_axis", PA + "axis", PA + "iterate",
                    PA + "eigenstate", OP + "from_axis", OP + "from_ixyz"])
def _(ob):
    ob.check("iteration yields the 16 Paulis once", len(PAULIS) == 16 and len(set(PAULIS)) == 16)
    ob.check("iteration over symbols only", [p.symbol for p in Pauli.iterate(symbol_only=True)] == list(IXYZ_VALUES) and all(p.unit is ComplexUnit.ONE for p in Pauli.iterate(symbol_only=True)))
    ob.total("matrix", ((str(p), close(p.matrix, pmat(p))) for p in PAULIS))
    ob.total("class constants and from_axis", ((n, close(getattr(Pauli, n).matrix, m)) for n, m in dict(I=M.I2, X=M.X, Y=M.Y, Z=M.Z).items()))
    ob.total("from_axis / axis", ((a.name, Pauli.from_axis(a) == Pauli(a) and Pauli(a).axis is a) for a in Axis))
    ob.total("operator matrices", ((str(s), close(Ops.from_ixyz(s), MAT[s])) for s in IXYZ_VALUES))
    ob.total("from_axis matrices", ((s.name, close(Ops.from_axis(s), MAT[s])) for s in Axis))
    ob.total("product", (((str(a), str(b)), close(pmat(a @ b), pmat(a) @ pmat(b))) for a in PAULIS for b in PAULIS))
    ob.total("negation", ((str(a), close(pmat(-a), -pmat(a))) for a in PAULIS))
    units = [*CU, 1, -1, 1j, -1j, 1.0, -1.0]
    cv = lambda u: cval[u] if isinstance(u, ComplexUnit) else u
    ob.total("scalar multiples on either side", (((str(a), str(u)), close(pmat(a * u), pmat(a) * cv(u)) and close(pmat(u * a), cv(u) * pmat(a))) for a in PAULIS for u in units))
    ob.total("eigenstates of unsigned Paulis", (((s if s is I else s.name, b), close(MAT[s] @ Pauli(s).eigenstate(b).to_statevector_numpy(), (1 if s is I else (-1) ** b) * Pauli(s).eigenstate(b).to_statevector_numpy())
             and abs(np.linalg.norm(Pauli(s).eigenstate(b).to_statevector_numpy()) - 1) < 1e-9) for s in IXYZ_VALUES for b in (0, 1)))
    ob.total("repr and str evaluate back", ((str(p), eval(repr(p), {"Pauli": Pauli}) == p and eval(str(p), dict(I=Pauli.I, X=Pauli.X, Y=Pauli.Y, Z=Pauli.Z)) == p) for p in PAULIS))

@P.proof("axes and planes", [FU + "Plane.axes", FU + "Plane.orth", FU + "Plane.cos", FU + "Plane.sin", FU + "Plane.from_axes", FU + "Plane.to_plane",
                             FU + "Plane.to_plane_or_axis", FU + "Axis.to_plane_or_axis"])
def _(ob):
    spec = {Plane.XY: ("X", "Y", "Z"), Plane.YZ: ("Z", "Y", "X"), Plane.XZ: ("Z", "X", "Y")}
    ob.total("cos, sin and orthogonal axes", ((p.name, (p.cos.name, p.sin.name, p.orth.name) == spec[p]) for p in Plane))
    ob.total("axes are the two axes of the plane's name", ((p.name, tuple(a.name for a in p.axes) == tuple(p.name)) for p in Plane))
    def fa(a, b):
        try:
            return set(Plane.from_axes(a, b).name) == {a.name, b.name}
        except ValueError:
            return a == b
    ob.total("from_axes", (((a.name, b.name), fa(a, b)) for a in Axis for b in Axis))
    ob.total("plane/axis projections", itertools.chain(((p.name, p.to_plane() is p and p.to_plane_or_axis() is p) for p in Plane), ((a.name, a.to_plane_or_axis() is a) for a in Axis)))

T = exact.Var("t")
def both_paths(fn):
    """Values of fn on an arbitrary symbolic angle and on an arbitrary float angle (all comparison outcomes)."""
    yield "symbolic", fn(T)
    for _ in exact.Choices():
        yield "numeric", fn(exact.FAng(T))

C_, S_ = (T * math.pi).cos(), (T * math.pi).sin()
E = lambda k: (T * (1j * math.pi * k)).exp()
HC, HS = (E(.5) + E(-.5)) * .5, (E(.5) - E(-.5)) * -.5j

@P.proof("angle conversions", [FU + "angle_to_rad", FU + "rad_to_angle"], backend="exact algebra (all angles)")
def _(ob):
    un = lambda x: x.a if isinstance(x, exact.FAng) else x
    for nm, r in both_paths(angle_to_rad):
        ob.exact(f"angle_to_rad(t) = pi t [{nm}]", un(r).same(T * math.pi), ["t"], lambda t: abs(angle_to_rad(t) - t * math.pi) < 1e-9)
    for nm, r in both_paths(rad_to_angle):
        ob.exact(f"rad_to_angle(t) = t / pi [{nm}]", un(r).same(T * (1 / math.pi)), ["t"], lambda t: abs(rad_to_angle(t) - t / math.pi) < 1e-9)

@P.proof("polar", [FU + "Plane.polar", "graphix/parameter.py:cos_sin"], backend="exact algebra (all angles)")
def _(ob):
    from graphix import parameter
    spec = {Plane.XY: (C_, S_, 0), Plane.YZ: (0, S_, C_), Plane.XZ: (S_, 0, C_)}
    cs = rebind(parameter.cos_sin, math=MathProxy())
    pol = rebind(Plane.polar, cos_sin=cs)
    for pl in Plane:
        for nm, r in both_paths(lambda a: pol(pl, a)):
            ob.exact(f"{pl.name}: documented Bloch vector for every angle [{nm}]", exact.equal(np.array(r, dtype=object), np.array(spec[pl], dtype=object)),
                     ["t"], lambda t: close(pl.polar(t), M.bloch_vec(pl.name, t)))

@P.proof("planar states", [ST + "PlanarState.to_statevector_numpy", ST + "State.to_densitymatrix_numpy", ST + "BasicStates"], backend="exact algebra (all angles)")
def _(ob):
    sv = rebind(PlanarState.to_statevector_numpy, np=NP)
    spec = {Plane.XY: (C_, S_, exact.LP()), Plane.YZ: (exact.LP(), S_, C_), Plane.XZ: (S_, exact.LP(), C_)}
    for pl in Plane:
        for nm, v in both_paths(lambda a: sv(PlanarState(pl, a))):
            v = exact.lp_array(v); vd = np.array([x.conjugate() for x in v], dtype=object)
            real = lambda t: close(np.outer(*(lambda w: (w, w.conj()))(PlanarState(pl, t).to_statevector_numpy())), M.projector(M.bloch_vec(pl.name, t)))
            ob.exact(f"{pl.name}: two amplitudes, unit norm, for every angle [{nm}]", v.shape == (2,) and ((vd * v).sum() - exact.LP.of(1)).is_zero(), ["t"], real)
            for ax, m, want in zip("XYZ", (M.X, M.Y, M.Z), spec[pl]):
                got = sum((vd[i] * complex(m[i, j]) * v[j] for i in range(2) for j in range(2)), exact.LP())
                ob.exact(f"{pl.name}: <{ax}> is the Bloch coordinate for every angle [{nm}]", (got - exact.LP.of(want)).is_zero(), ["t"], real)
    named = dict(ZERO=(0, 0, 1), ONE=(0, 0, -1), PLUS=(1, 0, 0), MINUS=(-1, 0, 0), PLUS_I=(0, 1, 0), MINUS_I=(0, -1, 0))
    def bl(v):
        return tuple((v.conj() @ m @ v).real for m in (M.X, M.Y, M.Z))
    ob.total("basic states", ((n, close(bl(getattr(BasicStates, n).to_statevector_numpy()), w)) for n, w in named.items()))
    ob.check("VEC lists the six basic states", {id(s) for s in BasicStates.VEC} == {id(getattr(BasicStates, n)) for n in named} or sorted(map(str, BasicStates.VEC)) == sorted(str(getattr(BasicStates, n)) for n in named))
    ob.total("density matrix is the projector on the state", ((n, close(getattr(BasicStates, n).to_densitymatrix_numpy(), M.projector(w))) for n, w in named.items()))

@P.proof("rotations", [OP + "rx", OP + "ry", OP + "rz", OP + "j", OP + "rzz", OP + "_cast_array", "graphix/parameter.py:exp", "graphix/parameter.py:cos_sin"], backend="exact algebra (all angles)")
def _(ob):
    spec = dict(rx=[[HC, HS * -1j], [HS * -1j, HC]], ry=[[HC, HS * -1], [HS, HC]], rz=[[E(-.5), 0], [0, E(.5)]],
                j=[[M.S2, E(1) * M.S2], [M.S2, E(1) * -M.S2]])
    z = [E(-.5), E(.5), E(.5), E(-.5)]
    spec["rzz"] = [[z[i] if i == j else 0 for j in range(4)] for i in range(4)]
    num = dict(rx=M.rx, ry=M.ry, rz=M.rz, j=M.jg, rzz=M.rzz)
    for n, m in spec.items():
        r = getattr(Ops, n)(T)
        ob.check(f"{n}(t) for every symbolic angle", exact.equal(r, np.array(m, dtype=object)), witness=f"Ops.{n}(t)")
    # the numeric code path: the same source with exact cos, sin, exp
    from graphix import parameter
    cs = rebind(parameter.cos_sin, math=MathProxy()); ex = rebind(parameter.exp, cmath=CMathProxy())
    class Ops2(Ops):
        _cast_array = staticmethod(rebind(Ops._cast_array, np=NP))
    for n, m in spec.items():
        if n == "rzz":
            Ops2.rz = staticmethod(rebind(Ops.rz, cos_sin=cs, exp=ex, np=NP, Ops=Ops2))
        f = rebind(getattr(Ops, n), cos_sin=cs, exp=ex, np=NP, Ops=Ops2)
        for _ in exact.Choices():
            ob.exact(f"{n}(t) for every float angle", exact.equal(f(exact.FAng(T)), np.array(m, dtype=object)), ["t"],
                     lambda t: close(getattr(Ops, n)(t), num[n](t * math.pi)))

@P.proof("constants", [OP + k for k in ("I", "X", "Y", "Z", "S", "SDG", "H", "CZ", "CNOT", "SWAP", "CCX", "build_tensor_pauli_ops")])
def _(ob):
    spec = dict(I=M.I2, X=M.X, Y=M.Y, Z=M.Z, S=M.S, SDG=M.SDG, H=M.H, CZ=M.CZ, CNOT=M.CNOT, SWAP=M.SWAP, CCX=M.CCX)
    ob.total("gate matrices", ((n, close(getattr(Ops, n), m)) for n, m in spec.items()))
    ob.total("gate matrices are read-only", ((n, not getattr(Ops, n).flags.writeable) for n in spec))
    def tp(n):
        r = Ops.build_tensor_pauli_ops(n)
        want = np.array([M.kron(*w) for w in itertools.product((M.I2, M.X, M.Y, M.Z), repeat=n)])
        return r.shape == want.shape and close(r, want)
    ob.total("tensor Pauli basis (n = 1, 2, 3)", ((n, tp(n)) for n in (1, 2, 3)))

def gen(rng, tier):
    while True:
        yield [rng.choice([rng.uniform(-10, 10), rng.choice([0, .5, 1, 1.5, -1, 2, -0.5, 100.25])])]

@P.bounded("floats", [OP + "rx", OP + "ry", OP + "rz", OP + "j", OP + "rzz", ST + "PlanarState.to_statevector_numpy", FU + "Plane.polar"], gen,
           "random and special float angles", quick=4, thorough=30)
def floats(case):
    a = case[0]; r = a * math.pi
    for n, f in dict(rx=M.rx, ry=M.ry, rz=M.rz, j=M.jg, rzz=M.rzz).items():
        assert close(getattr(Ops, n)(a), f(r)), f"Ops.{n}({a})"
    for pl in Plane:
        want = M.bloch_vec(pl.name, a)
        assert close(pl.polar(a), want), f"{pl}.polar({a})"
        assert close(PlanarState(pl, a).to_densitymatrix_numpy(), M.projector(want)), f"PlanarState({pl}, {a})"
    z = cmath.exp(1j * r)
    u = ComplexUnit.from_or_none(z)
    assert (u is not None) == (abs(abs(z.real) - 1) < 1e-9 and abs(z.imag) < 1e-8 or abs(abs(z.imag) - 1) < 1e-9 and abs(z.real) < 1e-8), f"from_or_none({z})"
    for x in (int(a * 1000), a, complex(a, -a / 3)):
        for s in Sign:
            assert s * x == int(s) * x and x * s == int(s) * x and type(s * x) is type(x)

class FloatExpr(ExpressionWithTrigonometry):
    """An expression that is a number in disguise"""
    __array_priority__ = 1000
    def __init__(self, z): self.z = z
    @staticmethod
    def of(o): return o.z if isinstance(o, FloatExpr) else o.real if isinstance(o, complex) and o.imag == 0 else o
    def __mul__(self, o): return FloatExpr(self.z * FloatExpr.of(o))
    def __add__(self, o): return FloatExpr(self.z + FloatExpr.of(o))
    def __sub__(self, o): return FloatExpr(self.z - FloatExpr.of(o))
    def __rsub__(self, o): return FloatExpr(FloatExpr.of(o) - self.z)
    def __truediv__(self, o): return FloatExpr(self.z / FloatExpr.of(o))
    __rmul__ = __mul__; __radd__ = __add__
    def __neg__(self): return FloatExpr(-self.z)
    def cos(self): return FloatExpr(cmath.cos(self.z))
    def sin(self): return FloatExpr(cmath.sin(self.z))
    def exp(self): return FloatExpr(cmath.exp(self.z))
    def evaluate(self): return self.z
    def with_parameter(self, variable, substitute): return self
    def with_parameters(self, assignment): return self
    def subs(self, variable, substitute): return self
    def xreplace(self, assignment): return self

@P.bounded("symbolic code path on numbers", [OP + "rx", OP + "ry", OP + "rz", OP + "j", OP + "rzz", FU + "Plane.polar", "graphix/parameter.py:exp", "graphix/parameter.py:cos_sin"], gen,
           "random and special float angles disguised as expressions", quick=3, thorough=20)
def symbolic_path(case):
    a = case[0]; r = a * math.pi; x = FloatExpr(a)
    ev = lambda m: np.vectorize(lambda e: complex(FloatExpr.of(e)))(np.asarray(m, dtype=object))
    for n, f in dict(rx=M.rx, ry=M.ry, rz=M.rz, j=M.jg, rzz=M.rzz).items():
        assert close(ev(getattr(Ops, n)(x)), f(r)), f"Ops.{n} of an expression worth {a}"
    for pl in Plane:
        want = M.bloch_vec(pl.name, a)
        assert close(ev(pl.polar(x)), want), f"{pl}.polar of an expression worth {a}"
