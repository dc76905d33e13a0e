#!/bin/bash
# Offline setup: unpacks hypothesis next to the framework and compiles the C extension of /repo into the cache.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec "${VP_PYTHON:-/opt/venv/bin/python}" -B harness/bootstrap.py
