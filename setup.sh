#!/bin/bash
# Nothing to compile: checks import emc2 from /repo's working tree. Verify that the interpreter and the package load.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$PWD/evidence/.mpl
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -W ignore -c "
from mc import env
env.setup()
print('emc2 loaded from', env.REPO)"
