"""Write the generated sections of DESIGN.md (unit tables) after the marker line."""
import importlib, json, sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent; sys.path.insert(0, str(ROOT))
from gv import boot  # noqa: E402, F401
MARK = "<!-- generated by tools/gen_design.py: do not edit below -->"
title = {d["id"]: d["title"] for d in map(json.loads, (ROOT / "properties.jsonl").read_text().splitlines())}
out = ["", "## Appendix: units of every check", "",
       "P = deductive unit (obligations over all inputs of the contract); B = bounded run-time check of contracts (never counted as proved).", ""]
for i in range(1, 32):
    P = importlib.import_module(f"props.C{i:02d}").P
    out += [f"### {P.id} {title[P.id]}", "", f"Level: {P.level}. {P.note}", ""]
    if P.assumptions: out += ["Assumed: " + "; ".join(P.assumptions) + ".", ""]
    short = lambda fs: ", ".join(x.split("graphix/")[-1] for x in fs)
    for u in P.proofs: out.append(f"- P *{u.name}* [{u.opts['backend']}]: {short(u.functions)}")
    for u in P.boundeds: out.append(f"- B *{u.name}*, {u.opts['bound']}, {u.opts['quick']:g} s quick / {u.opts['thorough']:g} s thorough: {short(u.functions)}")
    out.append("")
p = ROOT / "DESIGN.md"; s = p.read_text()
p.write_text(s.split(MARK)[0].rstrip() + "\n\n" + MARK + "\n" + "\n".join(out).rstrip() + "\n")
