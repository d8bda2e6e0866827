"""Functions that read a sequence once, from left to right: every control state.

`explore(call, alphabet, wants)`: `call(iterator)` is run on sequences of symbols of a finite alphabet.  The state of the
computation at the moment the next symbol is asked for is the stack of its frames: position in the code and values of the local
variables.  Two prefixes that lead to the same state have the same futures, so once every transition of every reachable
state has been taken the comparison with an automaton holds for sequences of every length."""
from __future__ import annotations
import builtins, dis, enum, sys
from .core import Unfit

class Stop(BaseException): pass

PLAIN = (bool, int, str, type(None), enum.Enum)
HIDING = {"LIST_APPEND", "SET_ADD", "MAP_ADD", "YIELD_VALUE"}      # what is kept on the stack would not be seen

def canon(x, it, free):
    if x is it: return "<iterator>"
    if any(x is f for f in free): return f"<argument {[x is f for f in free].index(True)}>"
    if isinstance(x, PLAIN): return (type(x).__name__, str(x))
    if isinstance(x, (set, frozenset)): return (type(x).__name__, tuple(sorted(canon(y, it, free) for y in x)))
    if isinstance(x, (tuple, list)): return (type(x).__name__, tuple(canon(y, it, free) for y in x))
    if isinstance(x, type): return ("type", x.__qualname__)
    k = getattr(x, "gv_canon", None)
    if k is not None: return ("item", k)
    raise Unfit(f"local variable {type(x).__name__}")

def following(it, *default):
    """`next`, as a function whose frame is seen"""
    return it.__next__() if not default else it.fetch(default[0])

CALLABLE = (following, iter, isinstance, set, frozenset, tuple, len)

def check(fr, top):
    """nothing but the frames may hold a part of the state: no partial result on the stack, no iterator that keeps elements"""
    code = fr.f_code
    if code is following.__code__: return
    for n in code.co_names:
        x = fr.f_globals.get(n, getattr(builtins, n, None))
        if x is None or any(x is c for c in CALLABLE) or isinstance(x, type) and issubclass(x, (enum.Enum, BaseException)): continue
        raise Unfit(f"{n} is used")
    for ins in dis.get_instructions(code):
        if ins.opname in HIDING: raise Unfit("intermediate results on the stack")
        if ins.offset == fr.f_lasti and not (ins.opname == "FOR_ITER" if top else ins.opname.startswith("CALL")): raise Unfit(f"state at {ins.opname}")

class Feed:
    """Supplies the given symbols; asked for one more, it records the state and abandons the computation, or ends."""
    def __init__(self, items, root, free, end):
        self.items, self.root, self.free, self.end, self.i, self.state = list(items), root, free, end, 0, None
    def __iter__(self): return self
    def fetch(self, default): raise Unfit("next with a default")
    def __next__(self):
        if self.i < len(self.items): self.i += 1; return self.items[self.i - 1]
        if self.end: raise StopIteration
        fr = sys._getframe(1); st = []; top = fr
        while fr is None or fr.f_code is not self.root:
            if fr is None: raise Unfit("frame")
            check(fr, fr is top)
            st.append((fr.f_code.co_qualname, fr.f_code.co_firstlineno, fr.f_lasti, tuple(sorted((n, canon(v, self, self.free)) for n, v in fr.f_locals.items()))))
            fr = fr.f_back
        self.state = tuple(st); raise Stop

def explore(call, alphabet, start, step, accept, free=(), limit=400):
    """Yields (sequence, result, expected) for every sequence that is decided; raises Unfit beyond `limit` states."""
    root = call.__code__
    def run(word, end):
        f = Feed([alphabet[a] for a in word], root, free, end)
        try: r = call(f)
        except Stop: return f.state, None
        if f.i < len(word): raise Unfit("ended early in a state from which it went on before")
        return None, r
    def stop(word, q): return run(word, True)[1], accept(q)
    seen, todo, n = {}, [((), start)], 0
    while todo:
        word, q = todo.pop(0); st, r = run(word, False)
        if st is None:
            # decided before the end: whatever follows, so every continuation must be decided alike
            reach, go = {q: word}, [q]
            while go:
                p = go.pop()
                for a in alphabet:
                    t = step(p, a)
                    if t not in reach: reach[t] = (*reach[p], a); go.append(t)
            for p, w in reach.items(): yield w, r, accept(p)
            continue
        if (st, q) in seen: continue
        seen[st, q] = word
        if len(seen) > limit: raise Unfit("too many states")
        yield word, *stop(word, q)
        for a in alphabet: todo.append(((*word, a), step(q, a)))
