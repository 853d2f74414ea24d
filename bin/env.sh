# The fixed environment of every simulated run.
export DST_HOME="$here"
export DST_REPO="${DST_REPO:-/repo}"
if [ -x /opt/venv/bin/python ]; then DST_PYTHON=/opt/venv/bin/python; else DST_PYTHON=python3; fi
export DST_PYTHON
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg MPLCONFIGDIR="$DST_HOME/build/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTEST_ADDOPTS PYTHONSTARTUP PYTHONOPTIMIZE PYTHONWARNINGS
export PYTHONPATH="$DST_HOME"
mkdir -p "$MPLCONFIGDIR"
