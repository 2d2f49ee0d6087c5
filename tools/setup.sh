#!/bin/bash
# nothing to build ahead: every check extracts and compiles from /repo itself; this only checks that the tools answer
set -e
command -v clang++ >/dev/null || command -v clang++-18 >/dev/null
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p "$(dirname "$0")/../evidence"
