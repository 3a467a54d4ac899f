#!/bin/bash
# run in the repository's root
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHON_JULIAPKG_OFFLINE=yes OMPI_MCA_ess_singleton_isolated=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
