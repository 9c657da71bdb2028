#!/bin/sh
# nothing to build: the framework is Python; make sure what it needs is there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, mpmath
assert sys.version_info >= (3, 12) and sys.monitoring"
echo ready
