#!/bin/bash
# Nothing is compiled: checks that the tools, the specifications and the code under test are usable.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export PYTHONPATH=/opt/pypath:$PWD/shims:$PWD/harness
/opt/venv39/bin/python -W ignore -c 'import vlib, wfa_planning_evaluation_framework.data_generators.data_set'
cd spec
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
ls *.tla | xargs -P 8 -I{} sh -c 'java -Djava.io.tmpdir='"$T"' -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY {} >'"$T"'/{}.out 2>&1 || { cat '"$T"'/{}.out; exit 255; }'
echo setup ok
