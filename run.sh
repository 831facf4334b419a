#!/bin/bash
# bash run.sh <property id> [--replay FILE]
# Runs one runtime monitor against the snuba_sdk in /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export TZ=VMON-03:30 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 PYTHONSAFEPATH=
work=$(mktemp -d /tmp/vmon.XXXXXX)
trap 'rm -rf "$work"' EXIT
# An empty bytecode cache: what runs is always /repo's current source.
export PYTHONPYCACHEPREFIX=$work/pyc VMON_WORK=$work
/opt/venv/bin/python "$here/mon/main.py" "$@"
