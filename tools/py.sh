#!/bin/bash
# Runs Python with the environment the checks have.
V=$(cd "$(dirname "$0")/.." && pwd)
CORE=$(/opt/venv/bin/python "$V/lib/build_core.py" | tail -1 | cut -d" " -f1)
export VERIF_CORE=$CORE PYTHONPATH="$V/lib/site:$CORE:/repo:$V/lib:$V" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$@"
