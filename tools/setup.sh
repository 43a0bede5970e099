#!/bin/bash
# Nothing to build: the verifier is Python (python3-vt with z3/cvc5), the code under test is imported from /repo.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
python3-vt -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import networkx, numpy, geopandas; print('ok')"
