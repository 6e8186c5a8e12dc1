#!/bin/bash
# usage: run.sh <property-id> [--replay FILE]      (tier and seed come from VERIF_TIER / VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export KCMON_REPO="${KCMON_REPO:-/repo}"
export PYTHONPATH="$KCMON_REPO:$PWD"
exec "${KCMON_PYTHON:-/opt/venv/bin/python}" -W ignore -m kcmon "$@"
