#!/bin/bash
# Nothing to build: the checks are Python and execute /repo/src directly.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import simpy, pandas, networkx, z3
print("z3", z3.get_version_string(), "simpy", simpy.__version__, "pandas", pandas.__version__)
PY
