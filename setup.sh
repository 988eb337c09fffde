#!/bin/bash
# nothing to build: the checks import /repo's working tree. Verifies the interpreter and its libraries.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -B -c "import numpy, scipy, matplotlib; from rv import core, gen, ref, specs; print('ok', len(specs.SPECS), 'contracts')"
