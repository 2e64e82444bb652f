#!/bin/bash
# run.sh <property> [quick|thorough]   or   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg \
       OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 \
       XLA_FLAGS="--xla_cpu_multi_thread_eigen=false" \
       PYTHONPATH="/repo:$PWD" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc "$@"
