"""Run one bounded unit with the compiled (numba) kernels instead of their Python source: python -m gv.jitrun PID UNIT TIER SEED BUDGET."""
from __future__ import annotations
import importlib, json, random, sys, time

def main():
    pid, uname, tier, seed, budget = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5])
    from gv import core
    P = importlib.import_module(f"props.{pid}").P
    u = next(u for u in P.boundeds if u.name == uname)
    t0 = time.time(); ev = sk = 0; fails = []; samples = []; done = True
    for i, case in enumerate(u.opts["cases"](random.Random(core.seed_of(pid, uname, seed)), tier)):
        if time.time() - t0 > budget: done = False; break
        msg = core.run_case(u, case)
        if msg == "skip": sk += 1; continue
        ev += 1
        if len(samples) < 2: samples.append(case)
        if msg is not None and core.run_case(u, case) not in (None, "skip"):
            fails.append((i, case, "[compiled kernels] " + msg)); done = False
            if len(fails) >= 3: break
    print("\n@@" + json.dumps(dict(evaluations=ev, skipped=sk, fails=fails, samples=samples, exhaustive=done, wall=time.time() - t0), default=str))

if __name__ == "__main__":
    main()
