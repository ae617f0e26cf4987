#!/bin/bash
# Nothing to build: check that the interpreter, the libraries and the code under test can be imported
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c '
from pbt import main
main.setup_path()
import hypothesis, torch, pyro, numpy, scipy, xarray, pyoptmat.models
print("ready", hypothesis.__version__, torch.__version__)'
