#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the solver and the sources are reachable."""
import os
import shutil
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = shutil.which("python3-vt") or sys.executable
code = ("import z3, numpy, networkx; s=z3.Solver(); x=z3.Real('x'); s.add(x*x<0); assert s.check()==z3.unsat; "
        "import symx.harness; print('ok', z3.get_version_string())")
r = subprocess.run([py, "-c", code], cwd=here, env=dict(os.environ, PYTHONPATH=here, PYTHONDONTWRITEBYTECODE="1"))
sys.exit(r.returncode)
