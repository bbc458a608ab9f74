#!/bin/bash
# nothing to build: check that the interpreter and the solver bindings are there
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import symx.core, symx.world, symx.runner, openturns; print('ok', symx.core.z3.get_version_string())"
