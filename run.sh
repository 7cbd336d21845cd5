#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--replay file] ...
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}" OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  OPENBLAS_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 \
  MALLOC_ARENA_MAX=2 TQDM_DISABLE=1 PYTHONWARNINGS=ignore
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY
exec python "$(dirname "$(readlink -f "$0")")/check.py" "$@"
