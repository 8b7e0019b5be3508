#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
exec /opt/veriftools/pyvenv/bin/python kwsv/check.py "$@"
