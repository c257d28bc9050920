#!/bin/sh
# run.sh <property> [tier]: one check against the working tree of /repo
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore mc/check.py "$1" ${2:+--tier "$2"}
