"""MANIFEST.json from the property modules present in props/."""
import importlib, json, os, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
NA = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if not (V / "props" / f"{i}.py").exists():
        na.append(dict(property=i, reason=NA.get(i, "no contract check built yet")))
        continue
    m = importlib.import_module(f"props.{i}").P
    nb, npf = len(m.boundeds), len(m.proofs)
    back = sorted({u.opts["backend"] for u in m.proofs})
    tech = f"contracts on the real functions: {npf} deductive units ({'; '.join(back)})" if npf else "contracts on the real functions"
    tech += f", {nb} bounded run-time contract checks" if nb else ""
    note = m.note + (" Assumes: " + "; ".join(m.assumptions) + "." if m.assumptions else "") + (" Trusts: " + "; ".join(["CPython, numpy", *m.trusted]) + ".")
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=tech[:600],
                       level=m.level, level_note=note))
d = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the checks import /repo's working tree directly. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(d, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")
