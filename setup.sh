#!/bin/bash
# Nothing to compile: verifies that the interpreter and the library's dependencies are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
MPLCONFIGDIR=$(mktemp -d) ; export MPLCONFIGDIR
/opt/venv/bin/python -W ignore -c "import openmdao.api, openaerostruct, scipy, numpy"
rm -rf -- "$MPLCONFIGDIR"
