#!/bin/sh
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt ./run.py "$@"
