#!/bin/bash
# run.sh PROPERTY TIER: rebuilds the harness from /repo's working tree and runs one check.
cd "$(dirname "$0")/.." || exit 2
exec python3 mc/run.py "$@"
