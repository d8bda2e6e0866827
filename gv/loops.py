"""Mechanical extraction of the body of a loop of a real function, as the inductive step of its loop contract.

`step(fn, which)` takes the current source of `fn`, finds its `which`-th outermost loop and compiles *that loop's body*
(the same AST) into a function of the local variables.  Dropped: everything before the loop except nested function
definitions, and everything after it.  Name mangling and globals are those of the original function.
"""
from __future__ import annotations
import ast, inspect, textwrap
from .core import Unfit
from .extract import raw
from .exact import isinst

def fn_ast(fn):
    try:
        src = textwrap.dedent(inspect.getsource(raw(fn)))
    except (OSError, TypeError) as e:
        raise Unfit(f"no source: {e}") from None
    return ast.parse(src).body[0]

def loops_of(fn):
    """Outermost loops, in source order (through if/match/with blocks, not into nested functions)."""
    out = []
    def go(stmts):
        for s in stmts:
            if isinstance(s, (ast.For, ast.While)):
                out.append(s)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            else:
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(s, f, []) or [])
                for c in getattr(s, "cases", []) or []:
                    go(c.body)
    go(fn_ast(fn).body)
    return out

def step(fn, which=0, inner=None, cut=None, **over):
    """`cut`: {k: (names, contract)} replaces the k-th loop directly inside the body by `names = contract(locals())`, i.e.
    by its contract (proved by another step).  Returns run(item, **state) -> dict of locals after one iteration, plus '__exit__' in {'next','break'}; a
    `return` inside the body appears as '__return__'.  `inner`: path of nested loop indices."""
    f = raw(fn)
    tree = fn_ast(fn)
    ls = loops_of(fn)
    if which >= len(ls):
        raise Unfit(f"{f.__qualname__}: loop {which} not found")
    loop = ls[which]
    for k in inner or ():
        sub = []
        def go(stmts):
            for s in stmts:
                if isinstance(s, (ast.For, ast.While)): sub.append(s)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
                else:
                    for a in ("body", "orelse", "finalbody"): go(getattr(s, a, []) or [])
                    for c in getattr(s, "cases", []) or []: go(c.body)
        go(loop.body)
        if k >= len(sub): raise Unfit("inner loop not found")
        loop = sub[k]
    if cut:
        seen = [0]
        class Cut(ast.NodeTransformer):
            def loop(self, nd):
                k = seen[0]; seen[0] += 1
                if k not in cut: return nd
                names = cut[k][0]
                call = ast.Call(ast.Name(f"gv_cut_{k}", ast.Load()), [ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
                return ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call)
            visit_For = visit_While = loop
            def visit_FunctionDef(self, nd): return nd
        loop.body = [Cut().visit(s) for s in loop.body]
        if seen[0] <= max(cut): raise Unfit("inner loop not found")
        over = {**over, **{f"gv_cut_{k}": c[1] for k, c in cut.items()}}
    cls = f.__qualname__.split(".")[-2] if "." in f.__qualname__ and "<locals>" not in f.__qualname__ else None
    nested = [s for s in tree.body if isinstance(s, ast.FunctionDef)]
    def run(item=None, **state):
        names = list(state)
        isfor = isinstance(loop, ast.For)
        once = ast.For(target=loop.target if isfor else ast.Name("__w", ast.Store()),
                       iter=ast.List([ast.Name("__item", ast.Load())], ast.Load()), body=loop.body,
                       orelse=[ast.Assign([ast.Name("__next", ast.Store())], ast.Constant(True))])
        pre = ast.Assign([ast.Name("__next", ast.Store())], ast.Constant(False))
        ret = ast.Return(ast.Tuple([ast.Constant("__locals__"), ast.Call(ast.Name("locals", ast.Load()), [], []), ast.Name("__next", ast.Load())], ast.Load()))
        # names starting with __ would be mangled inside a class: use a neutral prefix
        fd = ast.FunctionDef(name="gv_step", args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in ["gv_item", *names]], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=[*nested, pre, once, ret], decorator_list=[], type_params=[])
        for nd in ast.walk(fd):
            if isinstance(nd, ast.Name) and nd.id in ("__item", "__w", "__next"):
                nd.id = "gv" + nd.id[1:]
        body = [fd]
        if cls:
            body = [ast.ClassDef(name=cls, bases=[], keywords=[], body=[fd], decorator_list=[], type_params=[])]
        mod = ast.fix_missing_locations(ast.Module(body=body, type_ignores=[]))
        g = dict(f.__globals__); g["isinstance"] = isinst; g.update(over)
        if f.__closure__:
            g.update({n: c.cell_contents for n, c in zip(f.__code__.co_freevars, f.__closure__)})
        ns: dict = {}
        exec(compile(mod, f"<loop of {f.__qualname__}>", "exec"), g, ns)
        fn2 = getattr(ns[cls], "gv_step") if cls else ns["gv_step"]
        if cls: fn2 = fn2.__get__ and ns[cls].__dict__["gv_step"]
        # class bodies executed with separate ns: globals are g
        try:
            r = fn2(item, **state)
        except (UnboundLocalError, NameError) as e:
            raise Unfit(f"{f.__qualname__}: the loop uses state the contract does not know ({e})") from None
        if isinstance(r, tuple) and len(r) == 3 and r[0] == "__locals__":
            d = dict(r[1]); d["__exit__"] = "next" if r[2] else "break"
            return d
        return {"__return__": r, "__exit__": "return"}
    return run
