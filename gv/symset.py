"""Finite sets as symbolic GF(2)-linear forms.

`SymSet` stands for an *arbitrary* set of nodes; the operations the code under check performs on domains
(^, ^=, copy, symmetric_difference[_update]) act pointwise on membership, so a set that results from arbitrary sets
A, B, ... is a linear form over their indicator functions.  An equality of forms is an equality for all sets and all
nodes.  Any other operation raises, which makes the contract Unfit rather than wrong.
"""
from __future__ import annotations
from .core import Unfit

class SymSet:
    __slots__ = ("f",)
    def __init__(self, f=()):
        self.f = frozenset(f)
    @staticmethod
    def _of(o):
        if isinstance(o, SymSet):
            return o.f
        if isinstance(o, (set, frozenset)) and not o:
            return frozenset()
        raise Unfit(f"domain operation with {o!r}")
    def __xor__(self, o): return SymSet(self.f ^ self._of(o))
    def __rxor__(self, o): return SymSet(self.f ^ self._of(o))
    def __ixor__(self, o):
        self.f = self.f ^ self._of(o)
        return self
    def symmetric_difference(self, o): return self ^ o
    def symmetric_difference_update(self, o): self.f = self.f ^ self._of(o)
    def copy(self): return SymSet(self.f)
    __copy__ = copy
    def __deepcopy__(self, memo): return SymSet(self.f)
    def __eq__(self, o): return isinstance(o, (SymSet, set, frozenset)) and self.f == self._of(o)
    def __hash__(self): return 5
    def _no(self, *a, **k): raise Unfit("operation on an arbitrary set outside the pointwise fragment")
    __contains__ = __or__ = __and__ = __sub__ = __ior__ = __iand__ = __isub__ = _no
    __iter__ = __len__ = __bool__ = add = remove = discard = update = union = difference = intersection = _no
    def __repr__(self): return " ^ ".join(sorted(self.f)) or "0"

class DSet(SymSet):
    """An arbitrary set whose emptiness is also arbitrary: generators listed in `nonempty` are known to be non-empty, the
    truth value of any other non-zero form is explored both ways (gv.exact.Choices); a form found empty is recorded in
    `DSet.empty`, and only parities compatible with that are considered (`compatible`)."""
    __slots__ = ()
    nonempty: set = set()
    empty: list = []
    def __bool__(self):
        if not self.f: return False
        if len(self.f) == 1 and next(iter(self.f)) in DSet.nonempty: return True
        if self.f in DSet.empty: return False
        from .exact import Choices
        if Choices.cur is None: raise Unfit("emptiness of an arbitrary set outside an exploration")
        if Choices.cur.choose(): return True
        DSet.empty.append(self.f)
        return False
    def __xor__(self, o): return DSet(self.f ^ self._of(o))
    __rxor__ = __xor__
    def symmetric_difference(self, o): return self ^ o
    def copy(self): return DSet(self.f)
    __copy__ = copy
    def __deepcopy__(self, memo): return DSet(self.f)
    __hash__ = SymSet.__hash__

def form(d):
    return SymSet._of(d)

def parity(d, vals):
    return sum(vals[g] for g in form(d)) % 2

def compatible(vals):
    return all(sum(vals[g] for g in f) % 2 == 0 for f in DSet.empty)
