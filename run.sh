#!/bin/bash
# ./run.sh <property> [quick|thorough] -- run one property's check against /repo's working tree
cd "$(dirname "$0")" || exit 1
[ -n "$2" ] && export VERIF_TIER="$2"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 lib/main.py "$1"
