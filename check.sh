#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTORCH_JIT=0 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1 \
    /opt/venv/bin/python -m vf.run "$1" --tier "${2:-quick}" "${@:3}"
