#!/bin/bash
# Nothing to build ahead of time: every check stages the code from /repo itself.  Check the interpreter and compiler.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python -c 'import numpy, scipy, Cython; print("python, numpy", numpy.__version__, "cython", Cython.__version__)'
gcc --version | head -1
