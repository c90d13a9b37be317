#!/bin/sh
# check.sh ID [tier]: run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
unset PYTHONPATH
exec /opt/venv/bin/python -W ignore -m pbt.run "$1" --tier "${2:-${VERIF_TIER:-quick}}"
