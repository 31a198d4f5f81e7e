#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]        explore, write evidence/PROPERTY.json
#        run.sh PROPERTY --replay FILE           re-execute one recorded case
# Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..".
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here" PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0 LC_ALL=C.UTF-8
unset ELEMENTSTX_TESTS_SECP256K1_PATH
py=/opt/venv/bin/python
cd "$here" || exit 2
exec "$py" -m mc.main "$@"
