#!/bin/bash
# Nothing to build: the verifier is Python, the code under verification is read from /repo on every run.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt -c "import z3, sympy; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import torch, torch_struct; print('torch', torch.__version__, torch_struct.__file__)"
