#!/bin/bash
# run.sh <property id> [args]: run one check with the interpreter the repository is built for
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/harness/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
id="$1"; shift
cd "$here" && exec /opt/venv/bin/python -m "checks.$(echo "$id" | tr 'A-Z' 'a-z')" "$@"
