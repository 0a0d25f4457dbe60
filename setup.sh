#!/bin/bash
# nothing to build: the checks compile their drivers from /repo on every run.
# Verify that the tools are there.
set -e
for t in clang++-18 opt-18 llvm-dis-18 g++ python3-vt; do
  command -v $t >/dev/null 2>&1 || echo "note: $t not found"
done
python3-vt -c 'import z3, cvc5'
mkdir -p /verif/evidence
