#!/bin/bash
# Nothing to build ahead: checks import the package from /repo's working tree. See that the pieces are in place.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -W ignore -c 'import dolfin, numpy, petsc4py, block' || exit 1
ls -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis /opt/veriftools/wheels/hypothesis-*.whl >/dev/null 2>&1
echo "setup: ok"
