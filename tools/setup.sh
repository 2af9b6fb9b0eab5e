#!/bin/bash
# Nothing to build ahead of time: every check compiles what it needs from /repo's working tree.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "import numpy, scipy, astropy, h5py, pybind11"
command -v g++ >/dev/null
mkdir -p evidence
