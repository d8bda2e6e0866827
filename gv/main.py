from __future__ import annotations
import importlib, json, os, re, resource, sys, time, traceback
from pathlib import Path

def main() -> int:
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if mode == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
    from gv import core
    core.REPLAY.mkdir(parents=True, exist_ok=True)
    for old in core.REPLAY.glob(f"{pid}-*.json"):
        if mode != "replay":
            old.unlink()
    try:
        from gv import boot  # noqa: F401
        mod = importlib.import_module(f"props.{pid}")
    except Exception:
        # the tree cannot even be imported by the check: report which obligation that is
        tb = traceback.format_exc()
        try:
            import graphix.pattern, graphix.transpiler, graphix.sim.statevec  # noqa: F401, E401
            importable = True
        except Exception:
            importable = False
        print(tb, file=sys.stderr)
        if not importable:
            path = core.REPLAY / f"{pid}-import.json"
            path.write_text(json.dumps(dict(property=pid, obligation="the package can be imported", output=tb)))
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 3
    P = mod.P
    if mode == "replay":
        return replay(P, sys.argv[3])
    return run(P, tier, seed, t_start)

def replay(P, path: str) -> int:
    from gv import core
    d = json.loads(Path(path).read_text())
    for u in P.boundeds:
        if u.name == d.get("unit"):
            msg = core.run_case(u, d["case"])
            print("replay:", msg or "holds")
            return 1 if msg else 0
    print(json.dumps(d, indent=1))
    return 0

def run(P, tier: str, seed: int, t_start: float) -> int:
    from gv import core
    only = os.environ.get("GV_ONLY")
    proofs, units = [], []
    violations: list[tuple[str, dict, bool]] = []      # (kind, replay data, concrete)
    jobs = {u.name: core.start_jit(P, u, seed, tier) for u in P.boundeds if u.opts["jit"] and not (only and only not in u.name)}
    chosen_units = [u for u in P.proofs if not (only and only not in u.name) and not (u.opts["tier"] == "thorough" and tier != "thorough")]
    names = [u.name for u in [*P.proofs, *P.boundeds]]
    assert len(set(names)) == len(names), "unit names must be distinct"
    for u, pr in zip(chosen_units, core.run_proofs(P, chosen_units, 300 if tier == "quick" else 1500)):
        proofs.append(pr)
        if os.environ.get("GV_VERBOSE") or pr.unfit:
            nd = sum(o.status == "discharged" for o in pr.obls)
            print(f"# {u.name}: {nd}/{len(pr.obls)} discharged in {pr.wall:.1f}s" + (f"  UNFIT {pr.unfit}" if pr.unfit else ""),
                  file=sys.stderr)
        for o in pr.obls:
            if o.status == "refuted":
                violations.append((f"{u.name}/{o.label}", dict(property=P.id, unit=u.name, obligation=o.label, functions=u.functions,
                                   backend=o.backend, witness=o.witness), o.concrete))
            elif o.status == "undecided":
                print(f"# undecided: {u.name}/{o.label} {o.witness}", file=sys.stderr)
    known = core.known_findings(P.id)
    seen_known: dict[str, str] = {}
    bres = []
    abstract = [v for v in violations if not v[2]]
    unproved = any(pr.unfit for pr in proofs) or bool(abstract) or any(o.status == "undecided" for pr in proofs for o in pr.obls)
    for u in sorted(P.boundeds, key=lambda u: u.opts["jit"]):
        if only and only not in u.name:
            continue
        budget = u.opts[tier]
        if tier == "quick" and unproved:
            budget = budget * 2       # obligations that could not be discharged: look harder with the stand-in
        if u.opts["jit"]:
            r = core.finish_jit(u, jobs.pop(u.name), tier)
            if r.get("error"):
                print(f"# {u.name}: compiled run gave no result: {r['error']}", file=sys.stderr)
        else:
            r = core.run_bounded(P, u, seed, tier, budget)
        if os.environ.get("GV_VERBOSE"):
            print(f"# bounded {u.name}: {r['evaluations']} cases, {r['skipped']} skipped, exhaustive={r['exhaustive']}, "
                  f"{len(r['fails'])} fails in {r['wall_s']}s", file=sys.stderr)
        if r["evaluations"] == 0 and not r.get("hung") and not r["skipped"] and not r.get("error"):
            print(f"# bounded unit {u.name} evaluated nothing", file=sys.stderr)
            return 3
        if r.get("hung"):
            # which case hangs?  found by running cases one by one under a time limit
            f = find_hang(P, u, seed, tier)
            if f is not None:
                r["fails"] = [f]
        real = []
        for i, case, msg in r["fails"]:
            k = next((k for k, _ in known if k and k in msg), None)
            if k:
                seen_known[k] = dict(known)[k]
            else:
                real.append((i, case, msg))
        if real:
            i, case, msg = real[0]
            if not r.get("hung") and not r.get("jit"):
                again = core.run_case(u, case)       # replayed on the same tree
                if again is None:
                    print(f"# unit {u.name}: failure did not replay: {case!r}", file=sys.stderr)
                    real = []
            if real:
                violations.append((u.name, dict(property=P.id, unit=u.name, functions=u.functions, case=case, message=msg,
                                                how="./check %s replay <this file>" % P.id), True))
        r.pop("fails")
        bres.append(r)
    # witnesses of refuted proof obligations may also be listed findings
    keep = []
    for v in violations:
        k = next((k for k, _ in known if k and k in (str(v[1].get("witness")) + v[0])), None)
        if k:
            seen_known[k] = dict(known)[k]
        else:
            keep.append(v)
    violations = keep
    for k, text in seen_known.items():
        print(f"KNOWN-FINDING: property={P.id} {k}: {text}")
    obls = [o for pr in proofs for o in pr.obls]
    discharged = sum(o.status == "discharged" for o in obls)
    lines = []
    concrete = [v for v in violations if v[2]]
    chosen = concrete or violations
    if chosen:
        name, data, conc = chosen[0]
        data["also_failing"] = [v[0] for v in violations[1:]]
        path = core.REPLAY / f"{P.id}-{re.sub(r'[^A-Za-z0-9]+', '_', name)[:60]}.json"
        path.write_text(json.dumps(data, indent=1, default=str))
        msg = data.get("message") or data.get("witness")
        print(f"# {name}: {str(msg)[:1500]}")
        lines.append(f"VIOLATION property={P.id} replay={path}" + ("" if conc else " no-failing-input-found"))
    by_backend: dict[str, dict] = {}
    for o in obls:
        b = by_backend.setdefault(o.backend, dict(obligations=0, discharged=0, seconds=0.0))
        b["obligations"] += 1; b["discharged"] += o.status == "discharged"; b["seconds"] = round(b["seconds"] + o.seconds, 3)
    ev = sum(r["evaluations"] for r in bres)
    functions = sorted({f for pr in proofs for f in pr.functions})
    bfunctions = sorted({f for r in bres for f in r["functions"]} - set(functions))
    trusted = ["CPython executes the code under check; numpy, networkx", *P.trusted]
    if any("z3" in b for b in by_backend):
        trusted.append("z3 %s (API, inside the same interpreter)" % __import__("gv.boot", fromlist=["z3"]).z3().get_version_string())
    cov = dict(
        obligations=len(obls), discharged=discharged,
        checker_cmd=f"/verif/check {P.id} {tier}",
        trusted_base=trusted,
        by_backend=by_backend,
        functions_under_contract=functions,
        functions_bounded_only=bfunctions,
        proof_units=[dict(unit=pr.name, functions=pr.functions, obligations=len(pr.obls),
                          discharged=sum(o.status == "discharged" for o in pr.obls), wall_s=round(pr.wall, 2), unfit=pr.unfit,
                          stats=pr.stats, labels=sorted({o.label for o in pr.obls})[:60]) for pr in proofs],
        undischarged=[f"{o.unit}/{o.label}: {o.status}" for o in obls if o.status != "discharged"]
                     + [f"{pr.name}: {pr.unfit}" for pr in proofs if pr.unfit],
        bounded=[{k: v for k, v in r.items()} for r in bres],
        evaluations=ev, distinct_nontrivial=sum(r["distinct"] for r in bres),
        rule="; ".join(f"{r['name']}: {r['bound']}" for r in bres) or "none (all obligations deductive)",
        samples=[s for r in bres for s in r["samples"]][:5] or [o.label for o in obls[:3]],
        explanation=P.note,
    )
    assumptions = list(P.assumptions) + [a for pr in proofs for a in pr.assumptions]
    evd = dict(property=P.id, tier=tier, seed=seed, level=P.level, coverage=cov, assumptions=list(dict.fromkeys(assumptions)),
               wall_s=round(time.time() - t_start, 2), violations=len(violations))
    (core.EVID / f"{P.id}.json").write_text(json.dumps(evd, indent=1, default=str))
    for ln in lines:
        print(ln)
    if not lines:
        print(f"# {P.id}: {discharged}/{len(obls)} obligations discharged, {ev} bounded evaluations, {time.time()-t_start:.1f}s")
    return 1 if lines else 0

def find_hang(P, u, seed, tier):
    """The pool did not come back: find a case on which the code under check does not return within 60 s."""
    import multiprocessing as mp, random
    from gv import core
    ctx = mp.get_context("fork")
    t0 = time.time()
    for i, case in enumerate(u.opts["cases"](random.Random(core.seed_of(P.id, u.name, seed)), tier)):
        if time.time() - t0 > 150:
            return None
        p = ctx.Process(target=core.run_case, args=(u, case))
        p.start(); p.join(40)
        if p.is_alive():
            p.kill(); p.join()
            return (i, case, "does not return within 40 s (non-termination)")
    return None

if __name__ == "__main__":
    sys.exit(main())
