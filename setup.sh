#!/bin/bash
# nothing to build ahead: every check rebuilds what it needs from /repo; verify that the tools are there
set -e
cd "$(dirname "$0")"
for t in clang++ g++ z3-new cvc5 z3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
mkdir -p evidence
echo ok
