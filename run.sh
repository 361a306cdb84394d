#!/bin/bash
# bash run.sh <property id> [--replay FILE]      (tier from VERIF_TIER, seed from VERIF_SEED)
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export MPLBACKEND=Agg
export PYTHONPATH="$HERE:/repo" VERIF_HOME="$HERE"
exec /opt/venv/bin/python -m mc.main "$@"
