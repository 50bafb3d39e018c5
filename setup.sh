#!/bin/bash
# Nothing to build: checks that interpreter, libraries and the code are there.
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore - <<'PY' || exit 2
import sys
sys.path.insert(0, '/repo/src')
import numpy, scipy, tables, jsonpickle, pynlo
assert sys.version_info >= (3, 12), 'the monitors use sys.monitoring'
print('ready: numpy', numpy.__version__, 'scipy', scipy.__version__, 'pynlo', pynlo.__file__)
PY
