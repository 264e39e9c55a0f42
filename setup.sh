#!/bin/bash
# nothing to compile: verify that the two interpreters and their libraries are present
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import pandas, numpy"
python3-vt -c "import z3"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); sys.path.insert(0, '/repo'); import vf.rt.main, vf.rt.c_stats"
echo "setup ok"
