#!/bin/bash
# bash run.sh CNN [--tier quick|thorough] [--replay FILE] : runs one check against /repo
# (MC_REPO overrides the tree to check, for development only)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
unset PYTHONPATH PYTHONASYNCIODEBUG PYTHONDEVMODE
id=$1; shift
# an empty, private bytecode cache: stale .pyc files of the code under test are never used
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PYTHONPYCACHEPREFIX="$tmp"
/opt/venv/bin/python -m checks."${id,,}" "$@"
