#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay file]
# runs the monitors of one property against the code in /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
# never trust byte code compiled from an earlier tree
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
/opt/pypyvenv/bin/python -B -m vmon.run "$@"
