#!/bin/bash
# usage: bash run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg
[ -d /opt/bilby-cache/mpl ] && export MPLCONFIGDIR=/opt/bilby-cache/mpl
export PYTENSOR_FLAGS=base_compiledir=/opt/bilby-cache/pytensor
export PYTHONPATH=${VERIF_REPO:-/repo}:$PWD PYTHONWARNINGS=ignore
export VERIF_DIR=$PWD
exec /opt/venv/bin/python -m mc.run "$@"
