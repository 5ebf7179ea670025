#!/bin/bash
# Nothing to build: checks that the interpreter, the library's dependencies and the TLA+ tools are present.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c "import numpy, scipy, sympy, numba, awkward"
mkdir -p evidence
echo ok
