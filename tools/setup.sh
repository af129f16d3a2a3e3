#!/bin/sh
# nothing to build: the checks import /repo's sources at run time
set -e
/opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy; print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
