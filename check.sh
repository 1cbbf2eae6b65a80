#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
[ -n "$2" ] && export VERIF_TIER=$2
exec /opt/veriftools/pyvenv/bin/python3 -B checks/run.py "$1"
