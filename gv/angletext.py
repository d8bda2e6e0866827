"""An arbitrary angle seen by the code that writes its text: only its relation to the fraction found for it, and the class
of the numerator and of the denominator of that fraction, are known."""
from __future__ import annotations
from .core import Unfit

class Val:
    """A finite number whose relation to the fraction found for it is prescribed."""
    def __init__(self, eq): self.eq = eq
    def __float__(self): raise Unfit("the angle is converted")
    def __str__(self): return "V"
    __repr__ = __str__
    def __format__(self, s):
        if s: raise Unfit("format")
        return "V"
    def __eq__(self, o):
        if isinstance(o, FF): return self.eq
        raise Unfit("the angle is compared")
    def __ne__(self, o): return not self == o
    __hash__ = None
class FF:
    """The float nearest to the fraction."""
class Int:
    """An integer of one of the classes 0, 1, -1, >= 2, <= -2."""
    def __init__(self, cls, name): self.cls, self.name = cls, name
    def __abs__(self): return Int({"m": "p", "-1": "1"}.get(self.cls, self.cls), self.name)
    def __neg__(self): return Int({"m": "p", "p": "m", "1": "-1", "-1": "1"}.get(self.cls, self.cls), self.name)
    def _cmp(self, k): 
        v = {"m": -2, "-1": -1, "0": 0, "1": 1, "p": 2}[self.cls]
        return v, k
    def __eq__(self, k):
        if k not in (-1, 0, 1): raise Unfit(f"comparison with {k}")
        v, k = self._cmp(k); return v == k
    def __ne__(self, k): return not self == k
    def __lt__(self, k):
        if k in (0, 1): return self._cmp(k)[0] < k
        raise Unfit(f"comparison with {k}")
    def __gt__(self, k):
        if k in (0, 1, -1): return self._cmp(k)[0] > k
        raise Unfit(f"comparison with {k}")
    def __ge__(self, k): return not self < k
    def __le__(self, k): return not self > k
    def __bool__(self): return self.cls != "0"
    def __str__(self): return {"m": f"-{self.name}", "-1": "-1", "0": "0", "1": "1", "p": self.name}[self.cls]
    def __format__(self, s):
        if s: raise Unfit("format")
        return str(self)
    __hash__ = None
