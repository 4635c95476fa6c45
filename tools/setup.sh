#!/bin/bash
# Nothing to build: the simulator is Python and imports /repo's working tree directly.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 "${VERIF_PYTHON:-/opt/venv/bin/python}" -c "import sim.runner, sim.seams; print('simulator ready')"
