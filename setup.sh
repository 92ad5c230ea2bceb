#!/bin/bash
# Nothing is compiled: check that the code under test and Hypothesis import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
MPLCONFIGDIR=$(mktemp -d /tmp/vfsetup.XXXXXXXX); export MPLCONFIGDIR
/opt/venv/bin/python -c "
from vf import env
env.setup()
import hypothesis, numpy, puncturedfem
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'puncturedfem', puncturedfem.__file__)
"
rc=$?
case "$MPLCONFIGDIR" in /tmp/vfsetup.*) rm -rf -- "$MPLCONFIGDIR" ;; esac
exit $rc
