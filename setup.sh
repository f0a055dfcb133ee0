#!/bin/bash
# checks that the tools the verifier needs are present; nothing is installed
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++-18 /usr/bin/opt-18 python3-vt cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
