#!/bin/bash
# check.sh ID [quick|thorough|--replay FILE]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m rt.main "$@"
