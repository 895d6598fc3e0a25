#!/bin/bash
# Nothing to build: checks that the verifier and the back ends are there.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "import z3; import pyvc.batch; print('z3', z3.get_version_string())"
cvc5 --version | head -1
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import parce"
