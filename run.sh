#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
id=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# oneDNN's AVX512-FP16 kernels hang in grouped float16 convolutions (not singd's fault)
export ONEDNN_MAX_CPU_ISA=AVX512_CORE_BF16
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES=""
exec /opt/venv/bin/python check.py "$id" "$@"
