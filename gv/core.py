"""Bookkeeping shared by all property checks: obligations, bounded contract checks, verdicts, evidence.

Two kinds of unit make up a property check (see DESIGN.md):

* ``@P.proof(...)``   -- a contract on named functions of /repo.  Its obligations are quantified over *all* inputs
  of the contract: discharged by an SMT solver, by an exact symbolic identity, or by complete enumeration of a
  finite domain.  A refuted obligation carries a witness; if the witness is a concrete input it is a replayed
  failure.  `Unfit` means the contract does not fit the (refactored) code any more: recorded as undischarged, and
  the bounded stand-ins decide.
* ``@P.bounded(...)`` -- the same contract checked at run time on generated inputs of the real code (labelled
  bounded, never counted as proved).  Cases are JSON values; a failing case is its own replay.
"""
from __future__ import annotations
import hashlib, json, os, random, sys, time, traceback, multiprocessing as mp, multiprocessing.connection
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Iterable, Iterator
from . import boot

EVID = boot.VERIF / "evidence"
REPLAY = EVID / "replay"

class Unfit(Exception):
    """The contract cannot be put on the code as it is now (renamed helper, different loop structure, ...)."""

class Undecided(Exception):
    """The solver gave up."""

def need(obj: Any, *names: str) -> Any:
    """getattr chain for private helpers; a missing one is Unfit, not a violation."""
    for n in names:
        try:
            obj = getattr(obj, n)
        except AttributeError:
            raise Unfit(f"no attribute {n!r} on {obj!r}") from None
    return obj

@dataclass
class Obl:
    unit: str
    label: str
    status: str            # discharged | refuted | undecided
    backend: str
    seconds: float = 0.0
    witness: Any = None
    concrete: bool = False  # the witness is a concrete input on which the real code was run and failed

class Proof:
    """Collector handed to a proof unit."""
    def __init__(self, prop: "Prop", name: str, functions: list[str], backend: str):
        self.prop, self.name, self.functions, self.backend = prop, name, functions, backend
        self.obls: list[Obl] = []
        self.assumptions: list[str] = []
        self.unfit: str | None = None
        self.stats: dict[str, Any] = {}
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def assume(self, text: str) -> None:
        if text not in self.assumptions:
            self.assumptions.append(text)

    def check(self, label: str, ok: bool, witness: Any = None, seconds: float = 0.0, backend: str | None = None,
              concrete: bool = True) -> bool:
        """One closed obligation decided by evaluation (complete enumeration / exact identity)."""
        self.obls.append(Obl(self.name, label, "discharged" if ok else "refuted", backend or self.backend, seconds,
                             witness, concrete))
        return bool(ok)

    def structural(self, label: str, ok: bool, witness: Any = None) -> bool:
        """An obligation over a recording stand-in: a mismatch may be a harmless reorganisation, so it is left undecided
        (the bounded stand-ins then decide with a larger budget), never reported as a violation by itself."""
        if ok:
            return self.check(label, True)
        self.obls.append(Obl(self.name, label, "undecided", self.backend, 0.0, witness, False))
        return False

    def exact(self, label: str, ok: bool, names: Iterable[str], real: Callable[..., bool], backend: str | None = None,
              lo: float = -4.0, hi: float = 4.0) -> bool:
        """An identity in arbitrary real variables `names`, decided by exact algebra on the real code.

        If the algebra says no, `real(**values)` runs the unmodified code on floats: a failing instance is a replayed
        violation, otherwise the algebra did not fit the code and the obligation stays undecided.
        """
        if ok:
            return self.check(label, True)
        rng = random.Random(seed_of(self.prop.id, self.name, label))
        names = list(names)
        for k in range(60):
            vals = {n: (rng.uniform(lo, hi) if k % 3 else rng.choice([x / 2 for x in range(int(2 * lo), int(2 * hi) + 1)])) for n in names}
            try:
                good = real(**vals)
            except Exception as e:  # noqa: BLE001
                return self.check(label, False, dict(values=vals, error=f"{type(e).__name__}: {e}"))
            if not good:
                return self.check(label, False, dict(values=vals))
        self.obls.append(Obl(self.name, label, "undecided", backend or self.backend, 0.0,
                             "exact algebra refutes the identity but 60 float instances agree", False))
        return False

    def total(self, label: str, it: Iterable[tuple[Any, bool]], backend: str | None = None) -> bool:
        """One obligation discharged by complete enumeration of `it` (pairs (instance, holds))."""
        t0 = time.time(); n = 0
        for inst, ok in it:
            n += 1
            if not ok:
                self.check(label, False, inst, time.time() - t0, backend)
                return False
        self.stats[f"{label}: instances"] = n
        if n == 0:
            raise RuntimeError(f"vacuous obligation {self.name}/{label}")
        return self.check(label, True, None, time.time() - t0, backend)

@dataclass
class Unit:
    name: str
    fn: Callable
    functions: list[str]
    opts: dict = field(default_factory=dict)

class Prop:
    def __init__(self, pid: str, level: str, note: str = "", assumptions: Iterable[str] = (), trusted: Iterable[str] = ()):
        self.id, self.level, self.note = pid, level, note
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)
        self.proofs: list[Unit] = []
        self.boundeds: list[Unit] = []
        self.known: list[dict] = []

    def proof(self, name: str, functions: list[str], backend: str = "enumeration", tier: str = "quick"):
        def deco(fn):
            self.proofs.append(Unit(name, fn, functions, dict(backend=backend, tier=tier)))
            return fn
        return deco

    def bounded(self, name: str, functions: list[str], cases: Callable[[random.Random, str], Iterable[Any]], bound: str,
                quick: float = 8.0, thorough: float = 120.0, nontrivial: str = "distinct generated inputs", jit: bool = False):
        def deco(fn):
            self.boundeds.append(Unit(name, fn, functions, dict(cases=cases, bound=bound, quick=quick, thorough=thorough,
                                                                nontrivial=nontrivial, jit=jit)))
            return fn
        return deco

NPROC = min(8, os.cpu_count() or 1)

def seed_of(*parts: Any) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], "big")

def run_case(unit: Unit, case: Any) -> str | None:
    """None if the contract holds on the case, otherwise a message."""
    try:
        r = unit.fn(case)
    except Unfit:
        return "skip"
    except Exception as e:  # noqa: BLE001  (an unexpected exception of the code under check is a failure of its contract)
        tb = traceback.extract_tb(e.__traceback__)
        loc = "; ".join(f"{Path(f.filename).name}:{f.lineno}" for f in tb[-3:])
        return f"{type(e).__name__}: {str(e)[:600]} [{loc}]"
    if isinstance(r, str):
        return r
    return None

def _worker(args):
    prop_id, uname, w, n, budget, seed, tier = args
    unit = _UNITS[uname]
    t0 = time.time()
    ev = 0; hashes: set[bytes] = set(); samples: list[Any] = []; fails: list[tuple[int, Any, str]] = []
    skipped = 0; done = True; new = 0; seen: set[str] = set()
    known = [k for k, _ in known_findings(prop_id)]
    for i, case in enumerate(unit.opts["cases"](random.Random(seed_of(prop_id, uname, seed)), tier)):
        if i % n != w:
            continue
        if time.time() - t0 > budget:
            done = False
            break
        msg = run_case(unit, case)
        if msg == "skip":
            skipped += 1
            continue
        ev += 1
        js = json.dumps(case, sort_keys=True, default=str)
        hashes.add(hashlib.blake2b(js.encode(), digest_size=8).digest())
        if len(samples) < 1:
            samples.append(case)
        if msg is not None:
            key = next((k for k in known if k in msg), None)
            if key is not None:            # a listed finding is reported once and does not end the exploration
                if key not in seen: seen.add(key); fails.append((i, case, msg))
                continue
            fails.append((i, case, msg)); new += 1
            if new >= 3:
                done = False
                break
    return ev, hashes, samples, fails, skipped, done

_UNITS: dict[str, Unit] = {}

def run_bounded(prop: Prop, unit: Unit, seed: int, tier: str, budget: float) -> dict:
    _UNITS[unit.name] = unit
    t0 = time.time()
    args = [(prop.id, unit.name, w, NPROC, budget, seed, tier) for w in range(NPROC)]
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC) as pool:
        # a worker that dies or hangs (code under check looping for ever) must not hang the check
        res = pool.map_async(_worker, args, chunksize=1)
        try:
            out = res.get(timeout=budget + 90)
        except mp.TimeoutError:
            pool.terminate()
            return dict(name=unit.name, functions=unit.functions, bound=unit.opts["bound"], evaluations=0, distinct=0,
                        skipped=0, samples=[], exhaustive=False, fails=[], wall_s=round(time.time() - t0, 2), hung=True)
    hashes: set[bytes] = set(); ev = 0; samples = []; fails = []; skipped = 0; done = True
    for e, h, s, f, sk, d in out:
        ev += e; hashes |= h; samples += s; fails += f; skipped += sk; done = done and d
    fails.sort(key=lambda x: x[0])
    return dict(name=unit.name, functions=unit.functions, bound=unit.opts["bound"], rule=unit.opts["nontrivial"],
                evaluations=ev, distinct=len(hashes), skipped=skipped, samples=samples[:2], exhaustive=done, fails=fails,
                wall_s=round(time.time() - t0, 2))

def start_jit(prop: Prop, unit: Unit, seed: int, tier: str):
    """The unit in a fresh interpreter in which numba compiles the kernels (runs while the other units run)."""
    import subprocess, tempfile
    d = tempfile.mkdtemp(prefix="gvjit")
    env = dict(os.environ, NUMBA_DISABLE_JIT="0", GV_NUMBA_DISABLE_JIT="0", NUMBA_CACHE_DIR=d, NUMBA_NUM_THREADS=str(min(4, NPROC)))
    out = open(os.path.join(d, "out"), "w+")
    p = subprocess.Popen([sys.executable, "-B", "-m", "gv.jitrun", prop.id, unit.name, tier, str(seed), str(unit.opts[tier])],
                         cwd=boot.VERIF, env=env, stdout=out, stderr=subprocess.STDOUT)
    return p, out, d, time.time()

def finish_jit(unit: Unit, job, tier) -> dict:
    import shutil
    p, out, d, t0 = job
    res = dict(name=unit.name, functions=unit.functions, bound=unit.opts["bound"], rule="compiled kernels", evaluations=0, distinct=0,
               skipped=0, samples=[], exhaustive=False, fails=[], jit=True)
    try:
        p.wait(timeout=300 + unit.opts[tier])
        out.seek(0); txt = out.read()
        if "@@{" in txt:
            r = json.loads(txt.rsplit("@@", 1)[1])
            res.update(evaluations=r["evaluations"], distinct=r["evaluations"], skipped=r["skipped"], samples=r["samples"],
                       exhaustive=r["exhaustive"], fails=[tuple(f) for f in r["fails"]])
        else:
            res["error"] = txt[-1500:]
    except Exception as e:  # noqa: BLE001
        p.kill(); res["error"] = f"{type(e).__name__}: {e}"
    out.close(); shutil.rmtree(d, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def run_proofs(prop: Prop, units: list[Unit], limit: float) -> list[Proof]:
    """Every proof unit in a forked process of its own (at most NPROC at a time)."""
    import pickle
    ctx = mp.get_context("fork")
    def child(u, conn):
        pr = Proof(prop, u.name, u.functions, u.opts["backend"])
        t0 = time.time()
        try:
            u.fn(pr)
        except Unfit as e:
            pr.unfit = f"contract does not fit the current code: {e}"
        except Exception as e:  # noqa: BLE001
            pr.unfit = f"{type(e).__name__}: {e} :: " + traceback.format_exc()[-1500:]
            tb = traceback.extract_tb(e.__traceback__)
            if u.opts["backend"] in ("enumeration", "complete enumeration") and [f.filename.startswith(str(boot.REPO)) for f in tb if f.filename.startswith((str(boot.REPO), str(boot.VERIF)))][-1:] == [True]:
                # concrete arguments on which the real code raises
                pr.check("no exception is raised", False, pr.unfit); pr.unfit = None
        for o in pr.obls:
            try:
                pickle.dumps(o.witness)
            except Exception:  # noqa: BLE001
                o.witness = repr(o.witness)[:2000]
        try:
            conn.send((pr.obls, pr.assumptions, pr.unfit, json.loads(json.dumps(pr.stats, default=str)), time.time() - t0))
        except Exception as e:  # noqa: BLE001
            conn.send(([], [], f"could not report: {e}", {}, time.time() - t0))
        conn.close()
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(0)
    todo = list(units); live: dict = {}; done: dict[str, Proof] = {}
    while todo or live:
        while todo and len(live) < NPROC:
            u = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(u, b)); p.start(); b.close()
            live[u.name] = (u, p, a, time.time())
        mp.connection.wait([x[2] for x in live.values()], timeout=1.0)
        for n in list(live):
            u, p, a, t0 = live[n]
            pr = Proof(prop, u.name, u.functions, u.opts["backend"]); pr.wall = time.time() - t0
            if a.poll():
                try:
                    pr.obls, pr.assumptions, pr.unfit, pr.stats, pr.wall = a.recv()
                except EOFError:
                    pr.unfit = "the unit died"
            elif not p.is_alive():
                pr.unfit = "the unit died"
            elif time.time() - t0 > limit:
                p.kill(); pr.unfit = f"no answer within {limit:.0f} s"
            else:
                continue
            p.join(5)
            if not pr.obls and pr.unfit is None:
                pr.unfit = "no obligation was generated (vacuous)"
            done[n] = pr; del live[n]
    return [done[u.name] for u in units]

def known_findings(pid: str) -> list[tuple[str, str]]:
    """(key, text) of the listed, unrepaired findings of a property."""
    res = []
    f = boot.VERIF / "KNOWN_FINDINGS.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        line = line.strip()
        if line.startswith("finding: ") and f"property={pid} " in line:
            rest = line.split(f"property={pid} ", 1)[1]
            key, _, text = rest.partition(" ")
            res.append((key.removeprefix("key="), text))
    return res
