#!/bin/bash
# nothing to build: python only; verify that the code under test and the explorer import
cd "$(dirname "$(realpath "$0")")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -c "from mc import env; env.load(); from mc import core, ref, specs; print('ok')"
