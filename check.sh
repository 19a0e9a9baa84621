#!/bin/bash
# usage: check.sh PID [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HF_HUB_OFFLINE=1 CUDA_VISIBLE_DEVICES= \
  OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TQDM_DISABLE=1 \
  VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here"
export PYTHONWARNINGS=ignore
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
if [ "$1" = --selftest ]; then
  exec "$py" -c "import torch, dattri.task, vmon.core; print('ok', torch.__version__)"
fi
exec "$py" "$here/run.py" "$@"
