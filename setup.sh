#!/bin/bash
# Nothing to compile: the checks import the pure Python code from /repo/src.  Fail early if the
# interpreter, jax or matplotlib are missing.
cd "$(dirname "$0")" || exit 1
export MPLBACKEND=Agg JAX_PLATFORMS=cpu
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig} PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence/replays
/opt/venv/bin/python -W ignore -c "import jax, matplotlib, numpy, scipy; print('ok', jax.__version__, matplotlib.__version__)"
