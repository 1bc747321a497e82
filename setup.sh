#!/bin/bash
# Nothing to build: the checks import /repo's sources. Verify the interpreter and libraries.
set -e
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
$PY - <<'P'
import sys
assert sys.version_info >= (3, 12), sys.version
import numpy, scipy, astropy, matplotlib
print('setup ok', numpy.__version__, scipy.__version__, astropy.__version__)
P
