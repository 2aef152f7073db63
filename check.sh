#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B tools/check.py "$@"
