#!/bin/bash
# Runs every check; usage: run_all.sh [extra arguments of check.py]
cd "$(dirname "$0")" || exit 2
rc=0
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 21 22; do
  /opt/venv/bin/python check.py C$i "$@" || rc=1
done
exit $rc
