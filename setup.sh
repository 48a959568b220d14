#!/bin/bash
# Nothing to build: the framework is Python run by /opt/venv and the SAT solver
# is installed.  Confirms that both are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x "$(command -v kissat)"
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True
import pynini
from nv import claims, harness, iso, vn'
