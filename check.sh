#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1 PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
p="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
exec /opt/venv/bin/python -B -m harness.check "$p" "$@"
