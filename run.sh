#!/bin/bash
# bash run.sh <check> [--replay FILE]: runs one check against /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from vlib import core; sys.exit(core.main(sys.argv[1:]))' "$@"
