#!/bin/bash
# check.sh C01 [args]: runs one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d /tmp/mcpyc.XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$T" MC_TMP="$T"
/opt/venv/bin/python -m mc.run "$@"
