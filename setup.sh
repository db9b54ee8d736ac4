#!/bin/bash
# Nothing is compiled: the checks run /repo's Python sources as they are.
# Verifies that the interpreter finds OpenNTN at /repo, in Sionna and on its own.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
mkdir -p evidence replays
exec /opt/venv/bin/python -c "from rt import boot; boot.boot(); print('setup ok')"
