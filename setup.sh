#!/bin/bash
# nothing to build: checks that the interpreters and solvers are there
cd "$(dirname "$0")" || exit 3
exec env -u PYTHONPATH PYTHONDONTWRITEBYTECODE=1 PYTORCH_JIT=0 /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import torch, z3, cvc5
from vf import run
print('ok', torch.__version__, z3.get_version_string())"
