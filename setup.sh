#!/bin/bash
# nothing to build: checks run the Python sources of /repo's working tree; verify that the solvers are reachable
cd "$(dirname "$0")" && mkdir -p evidence/replay && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
from gv import boot; z=boot.z3(); s=z.Solver(); x=z.Int('x'); s.add(x>0,x<0); assert s.check()==z.unsat; print('z3', z.get_version_string())"
