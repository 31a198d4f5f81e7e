#!/bin/bash
# nothing to build ahead of the checks: make sure that they can run here
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here" PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/pycache LC_ALL=C.UTF-8
cd "$here" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -c '
import mc.engine, mc.ref
from mc import shim
shim.install()
shim.self_check()
print("setup ok")
'
