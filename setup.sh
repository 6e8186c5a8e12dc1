#!/bin/bash
# Nothing to build ahead: every check imports /repo's working tree. This only proves the
# interpreter and its packages are there.
cd "$(dirname "$0")" || exit 2
PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c '
import kerncraft.kernel, kerncraft.models, kerncraft.cacheprediction, cachesim, osaca, kcmon.core
print("ok", kerncraft.__file__)'
