#!/usr/bin/env python3
"""setup_cmd: compile the system call shim and check that the interpreter can import what the checks need."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import shim  # noqa

so = shim.build()
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
subprocess.run([PY, '-c', 'import numpy, h5py, lxml, pandas, joblib'], check = True, env = dict(os.environ, LD_PRELOAD = so))
print('ready', so)
