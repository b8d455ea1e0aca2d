#!/bin/sh
# nothing to build: the checks rebuild everything from /repo on every run.  Only verify that the tools are there.
set -e
for t in clang++-18 g++ make; do command -v $t >/dev/null; done
test -x /usr/lib/llvm-18/bin/opt
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
cd "$(dirname "$0")" && /opt/veriftools/pyvenv/bin/python3 -c 'import sys; sys.path.insert(0,"ccv"); import ir, vc, stl, stdlib, task, props'
