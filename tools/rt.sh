#!/bin/bash
# run selected repository tests: rt.sh path...
D=$(mktemp -d /tmp/rtXXXX); cd $D
PYTHONPATH=/repo:/repo/tests PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg RAY_TMPDIR=$D TMPDIR=$D RAY_USAGE_STATS_ENABLED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider -o python_functions=no_functions -o python_classes=no_classes --rootdir=/repo --tb=short "$@" 2>&1 | tail -${N:-25}
cd /; rm -rf $D
