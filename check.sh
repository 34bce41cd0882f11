#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough]   |   bash check.sh --setup
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PY=/usr/local/bin/python3
[ -x "$PY" ] || PY=python3
if [ "$1" = --setup ]; then
  mkdir -p evidence && exec "$PY" -c "import rbmsa, sys; print('rbmsa', sys.version.split()[0])"
fi
exec "$PY" -m rbmsa "$@"
