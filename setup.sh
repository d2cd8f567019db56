#!/bin/bash
# Nothing to compile: checks import /repo/src directly. Verify the interpreter.
cd "$(dirname "$0")" && mkdir -p evidence out
exec "${VERIF_PYTHON:-/opt/pypy-venv/bin/python}" -B -W ignore -c "import numpy, scipy, pandas; print('ok')"
