#!/bin/bash
# nothing to build: check that the interpreter the repository uses can import it
cd "$(dirname "$0")" || exit 1
LC_ALL=C.UTF-8 PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pytracer' >/dev/null 2>&1
exit 0
