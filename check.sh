#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python -m engine.main "$@"
