#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 3
pid="$1"; tier="${2:-quick}"; shift; shift
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
# VERIF_REPO: another tree, for development only
export PYTHONPATH="$(pwd)${VERIF_REPO:+:$VERIF_REPO}"
exec /opt/venv/bin/python -m jv.main "$pid" --tier "$tier" "$@"
