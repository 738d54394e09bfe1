#!/bin/bash
# Nothing is installed: only checks that the tools the checks rely on are there.
set -e
cd "$(dirname "$0")"
for t in verus clang++ g++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
python3 -B -c 'import sys; sys.path.insert(0, "vf"); import contracts; print(len(contracts.Contracts().all), "contracts")'
