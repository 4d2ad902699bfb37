#!/bin/sh
# run.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python3 check.py "$@"
