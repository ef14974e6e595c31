#!/bin/bash
# Nothing is compiled: the checks generate their verification conditions from /repo on every run.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print('z3', z3.get_version_string())"
command -v cvc5
mkdir -p evidence replays
