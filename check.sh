#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [--only '<group>|<case>']
# Builds the check from /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
exec python3 tools/run_check.py "$@"
