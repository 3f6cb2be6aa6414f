#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 LANG=C.UTF-8
exec python3-vt engine/driver.py "$1" --tier "${2:-quick}" "${@:3}"
