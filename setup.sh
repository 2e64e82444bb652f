#!/bin/bash
# Nothing to compile: the explorer is Python and imports the code under test from /repo.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD" /opt/venv/bin/python - <<'PY' || exit 1
import pysad, numpy, mc.core
print("ok", pysad.__file__)
PY
