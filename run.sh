#!/bin/bash
# run.sh <PROPERTY-ID> [quick|thorough] [--replay FILE]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
id="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
exec /opt/venv/bin/python -B mc/main.py "$id" --tier "$tier" "$@"
