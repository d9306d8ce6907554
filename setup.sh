#!/bin/bash
# Nothing to build: the verifier is Python and Lean source, run from /verif. Checks that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numba, numpy, scipy'
test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p evidence
echo ok
