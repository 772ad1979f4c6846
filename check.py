#!/usr/bin/env python
"""Entry point: ``check.py C01 [--replay FILE]``."""

import importlib
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("ONEDNN_MAX_CPU_ISA", "AVX512_CORE_BF16")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from vlib import core  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    module = importlib.import_module(f"checks.{pid.lower()}")
    sys.exit(core.main(module, sys.argv[2:]))
