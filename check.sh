#!/bin/bash
# check.sh ID [args]   decide one property on /repo's current working tree
[ -f /opt/vp/lib/env.sh ] && . /opt/vp/lib/env.sh
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY mc/main.py "$@"
