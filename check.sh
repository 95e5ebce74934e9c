#!/bin/bash
# check.sh PROPERTY [quick|thorough] [runner options]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1
export TF_CPP_MIN_LOG_LEVEL=3 TF_NUM_INTEROP_THREADS=1 TF_NUM_INTRAOP_THREADS=1
export TF_ENABLE_ONEDNN_OPTS=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
prop=$1; tier=${2:-quick}; shift; shift
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m symx.runner "$prop" --tier "$tier" "$@"
