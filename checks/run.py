#!/usr/bin/python3.12
"""checks/run.py C01 [--tier quick|thorough] [--replay FILE] ..."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.path.insert(0, here)
os.chdir(os.path.join(here, ".."))
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
import importlib
from vh import fw
fw.run(importlib.import_module(sys.argv.pop(1).lower()))
