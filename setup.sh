#!/bin/bash
# nothing to build: checks that the interpreter and the package under test can be imported
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.:/repo MPLCONFIGDIR=$(mktemp -d) PYTHONWARNINGS=ignore \
  /opt/venv/bin/python -c "import mc.core, mc.world, mc.canon; print('ok')"
