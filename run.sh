#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -B check.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
