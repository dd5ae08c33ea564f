#!/bin/bash
# usage: ./run.sh <PROPERTY> quick|thorough   or   ./run.sh <PROPERTY> replay <artefact.json>
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD:${REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1
# never read or write byte code caches: what runs is /repo's current source
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python -W ignore -m mc "$@"
