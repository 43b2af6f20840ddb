#!/bin/bash
# run.sh ID [quick|thorough]        run one check
# run.sh --replay FILE              re-run the single case recorded in a replay file
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig}
# MC_SRC: only for trying planted changes in scratch copies
export MC_SRC=${MC_SRC:-/repo/src}
export PYTHONPATH=$MC_SRC:$PWD
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
