#!/bin/bash
# usage: run.sh <property> [runner options]; environment VERIF_SEED, VERIF_TIER
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -c 'import sys
from hv import runner
rc = runner.main(sys.argv[1:])
sys.stdout.flush()
sys.exit(rc)' "$@" 
