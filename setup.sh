#!/bin/bash
# Nothing is compiled: checks that the interpreter, the code under test and the solvers are there.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh || exit 2
export PYTHONDONTWRITEBYTECODE=1
cd /repo && "$PY" -c 'import whatami, arpeggio, toolz, sys; print(sys.version)' || exit 1
z3-new --version && /usr/bin/cvc5 --version | head -1
