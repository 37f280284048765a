#!/bin/bash
# nothing to install: checks that the tools the checks need are here
set -e
for t in clang++ g++ llvm-link c++filt python3-vt; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, numpy'
mkdir -p evidence replay
