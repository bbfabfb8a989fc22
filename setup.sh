#!/bin/bash
# Nothing to build: the engine is Python run from the committed files.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3"
/opt/venv/bin/python -c "import numpy, scipy, numba, pandas, networkx"
