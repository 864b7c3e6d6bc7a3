#!/bin/bash
# Nothing to build: make sure the tools and the package under test load.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONUTF8=1
exec python3-vt run.py list
