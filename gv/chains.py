"""Compositions of callees: stand-ins whose attributes and calls are terms.

A caller whose body only composes its callees is checked against their contracts by comparing the term it returns (and the
attributes it assigns) with the composition whose contract is the statement."""
from __future__ import annotations
from .core import Unfit

def ex(x):
    if isinstance(x, Ch): return x.gv_e
    if isinstance(x, Me): return ("self",)
    if isinstance(x, (list, tuple)): return (type(x).__name__, *map(ex, x))
    if isinstance(x, dict): return ("dict", *sorted((repr(k), ex(v)) for k, v in x.items()))
    return ("value", repr(x)) if isinstance(x, (int, float, str, bool, type(None))) else ("object", id(x))

class Ch:
    """A term."""
    def __init__(self, e): self.__dict__["gv_e"] = e if isinstance(e, tuple) else (e,)
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        return Ch(("attr", self.gv_e, a))
    def __call__(self, *a, **k): return Ch(("call", self.gv_e, tuple(map(ex, a)), tuple(sorted((n, ex(v)) for n, v in k.items()))))
    def __setattr__(self, a, v): raise Unfit("assignment to a result of a callee")
    def _no(self, *a): raise Unfit("operation on an opaque result")
    __bool__ = __len__ = __getitem__ = __contains__ = __add__ = __lt__ = _no
    def __iter__(self): raise Unfit("iteration over an opaque result")
    def __eq__(self, o): return isinstance(o, Ch) and self.gv_e == o.gv_e
    def __hash__(self): return hash(self.gv_e)
    def __repr__(self): return repr(self.gv_e)

class Me:
    """The object: attributes that are read are terms, those that are assigned are kept; calls of its methods are recorded in order."""
    def __init__(self, **k): self.__dict__["gv_set"] = {}; self.__dict__["gv_have"] = k
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        if a in self.gv_set: return self.gv_set[a]
        if a in self.gv_have: return self.gv_have[a]
        return Ch(("attr", ("self",), a))
    def __setattr__(self, a, v): self.gv_set[a] = v
    def _no(self, *a): raise Unfit("operation on the object")
    __bool__ = __len__ = __getitem__ = __contains__ = __iter__ = _no
