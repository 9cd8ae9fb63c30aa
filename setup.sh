#!/bin/bash
# Nothing has to be compiled: verify that the interpreter, the libraries and
# the working tree of /repo can be imported.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .scratch replays
JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo \
  /opt/venv/bin/python -c '
import jax, numpy, scipy, h5py, ujson
import jax_sgmc
assert jax_sgmc.__file__.startswith("/repo/"), jax_sgmc.__file__
print("ok", jax.__version__, jax_sgmc.__file__)'
