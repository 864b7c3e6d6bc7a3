#!/bin/bash
# check.sh PID [quick|thorough]: decide one property against /repo's tree.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONUTF8=1
export VERIF_SEED="${VERIF_SEED:-1}"
exec python3-vt run.py check "$@"
