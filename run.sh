#!/bin/bash
# run.sh C02 quick|thorough
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" run.py --prop "$1" --tier "${2:-quick}"
