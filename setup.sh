#!/bin/bash
# Nothing to compile: the machinery is Python and imports /repo's working tree directly.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replay
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
exec /opt/venv/bin/python -c "import mc.engine, mc.run, numpy, h5py, ruamel.yaml; print('ok')"
