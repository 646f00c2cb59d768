#!/bin/bash
# verifies that the tools the checks need are present; nothing is built ahead of time
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0,'.')
from vlib import symx
import z3
x = z3.Real('x'); s = z3.Solver(); s.add(x*x == 2); assert s.check() == z3.sat
print('solver ok', z3.get_version_string())
"
which cvc5 >/dev/null
