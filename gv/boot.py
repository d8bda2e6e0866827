"""Put /repo (the working tree under check) and the solvers on the path.  Import this first."""
from __future__ import annotations
import importlib.util, os, sys, types, warnings
from pathlib import Path

warnings.simplefilter("ignore")
REPO = Path(os.environ.get("GV_REPO", "/repo")).resolve()
VERIF = Path(__file__).resolve().parent.parent
SOLVERS = Path("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

def _load(name: str):
    if name in sys.modules:
        return sys.modules[name]
    init = SOLVERS / name / "__init__.py"
    spec = importlib.util.spec_from_file_location(name, init, submodule_search_locations=[str(SOLVERS / name)])
    assert spec and spec.loader
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod

def z3():
    return _load("z3")

def cvc5():
    return _load("cvc5")

def setup() -> None:
    sys.path.insert(0, str(REPO))
    if str(VERIF) not in sys.path:
        sys.path.insert(1, str(VERIF))
    if not (REPO / "graphix" / "_version.py").exists():     # generated at build time, git-ignored
        m = types.ModuleType("graphix._version")
        m.__version__ = m.version = "0.0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        sys.modules["graphix._version"] = m
    import graphix
    where = Path(graphix.__file__).resolve()
    if REPO not in where.parents:
        raise RuntimeError(f"graphix imported from {where}, not from {REPO}")
setup()
