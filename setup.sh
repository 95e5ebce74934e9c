#!/bin/bash
# Nothing to build: the machinery is Python.  Check that the tools it needs
# are there, so that a broken sandbox shows here and not in a check.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
/opt/venv/bin/python -W ignore -c "
from symx import runner
import z3, cvc5, tensorflow, numpy
print('z3', z3.get_version_string(), 'tf', tensorflow.__version__)"
