#!/bin/bash
# Usage: run.sh <property id> [--replay FILE]     (environment: VERIF_SEED, VERIF_TIER)
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH=/opt/pypath:$here/shims:$here/harness
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export VERIF_ROOT="$here"
exec /opt/venv39/bin/python -W ignore "$here/harness/main.py" "$@"
