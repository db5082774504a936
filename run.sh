#!/bin/bash
# run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 harness/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
