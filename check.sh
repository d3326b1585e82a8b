#!/bin/sh
# usage: check.sh <property id> [--thorough] [-v]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 python3 sa/core.py "$@"
