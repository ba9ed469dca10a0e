#!/bin/bash
# Nothing to build: checks execute the Python sources of /repo directly.
cd "$(dirname "$0")" || exit 1
mkdir -p work evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import vsym.core, vsym.runner, vsym.loader; print('vsym ready')"
