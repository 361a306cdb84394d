#!/bin/bash
# Nothing to compile ahead of time: every check imports /repo's working tree directly.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
cd /tmp
PYTHONPATH="$OLDPWD:/repo" /opt/venv/bin/python -c "import mc.core, lumos"
