#!/bin/bash
# Nothing to compile: the specification is interpreted by TLC, the harness by the
# interpreter the repository is installed in.  Check that both are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || test -f /opt/veriftools/tla/tla2tools.jar
# warm the file cache for the imports
HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHON_JULIAPKG_OFFLINE=yes timeout 600 /opt/venv/bin/python -W ignore -c "import gw_eccentricity, bilby" >/dev/null 2>&1 || true
echo setup ok
