#!/usr/bin/env bash
# Nothing has to persist between runs: every check builds what it needs from
# /repo's working tree.  Only verify that the tools the checks use are there.
set -e
for t in python3 cmake ninja gcc objcopy ar; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../evidence"
