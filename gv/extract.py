"""Mechanical rebinding of globals of a real function (callees replaced by their contracts, numpy by exact algebra)."""
from __future__ import annotations
import inspect, math, types
import numpy as np
from .core import Unfit

def raw(fn):
    fn = getattr(fn, "py_func", fn)
    if isinstance(fn, (staticmethod, classmethod)):
        fn = fn.__func__
    if isinstance(fn, property):
        fn = fn.fget
    return inspect.unwrap(fn)

def rebind(fn, **over):
    """The same code object with some globals replaced (nothing else changes)."""
    fn = raw(fn)
    if not isinstance(fn, types.FunctionType):
        raise Unfit(f"{fn!r} is not a plain function")
    g = dict(fn.__globals__)
    from .exact import isinst
    g["isinstance"] = isinst
    g.update(over)
    new = types.FunctionType(fn.__code__, g, fn.__name__, fn.__defaults__, fn.__closure__)
    new.__kwdefaults__ = fn.__kwdefaults__
    return new

class NumpyProxy:
    """numpy with exact trigonometry on symbolic angles; arrays of symbols become object arrays."""
    def __init__(self):
        self.__dict__["_np"] = np
    def __getattr__(self, a):
        return getattr(np, a)
    @staticmethod
    def _sym(x):
        from .exact import _Base, FAng
        return isinstance(x, (_Base, FAng))
    def cos(self, x): return x.cos() if self._sym(x) else np.cos(x)
    def sin(self, x): return x.sin() if self._sym(x) else np.sin(x)
    def exp(self, x): return x.exp() if self._sym(x) else np.exp(x)
    def asarray(self, a, dtype=None, **k):
        o = np.asarray(a, dtype=object)
        return o if any(self._sym(x) for x in o.flat) else np.asarray(a, dtype=dtype, **k)
    array = asarray

NP = NumpyProxy()

class MathProxy:
    def __getattr__(self, a): return getattr(math, a)
    def cos(self, x): return x.cos() if NP._sym(x) else math.cos(x)
    def sin(self, x): return x.sin() if NP._sym(x) else math.sin(x)
    def exp(self, x): return x.exp() if NP._sym(x) else math.exp(x)

class CMathProxy(MathProxy):
    def __getattr__(self, a):
        import cmath
        return getattr(cmath, a)
    def exp(self, x):
        import cmath
        return x.exp() if NP._sym(x) else cmath.exp(x)

def nested(fn, name, **env):
    """The function `name` defined inside `fn`, compiled from the current source of `fn` together with its sibling nested
    functions; `env` gives the variables of the enclosing function it uses.  Dropped: the rest of `fn`."""
    import ast, linecache, textwrap
    f = raw(fn)
    try: tree = ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]
    except (OSError, TypeError) as e: raise Unfit(f"no source: {e}") from None
    defs = [s for s in tree.body if isinstance(s, ast.FunctionDef)]
    if name not in [d.name for d in defs]: raise Unfit(f"no {name} in {f.__qualname__}")
    src = "\n".join(ast.unparse(d) for d in defs) + "\n"
    fname = f"<nested functions of {f.__qualname__}>"
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    from .exact import isinst
    g = dict(f.__globals__); g["isinstance"] = isinst; g.update(env)
    exec(compile(src, fname, "exec", flags=__import__("__future__").annotations.compiler_flag), g)
    return g[name]
