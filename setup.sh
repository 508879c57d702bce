#!/bin/bash
# nothing to build: the monitors are interpreted; make sure the interpreter and the package under test load
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" /opt/pypyvenv/bin/python -B -c "import numpy, structrans, vmon.core" && mkdir -p evidence
