#!/bin/sh
# nothing to build: the machinery is Python and runs on the installed solvers
cd "$(dirname "$0")" || exit 1
/opt/veriftools/pyvenv/bin/python3 -c 'import z3' && clang --version >/dev/null
