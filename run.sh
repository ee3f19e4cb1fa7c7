#!/bin/bash
# usage: run.sh <property id> <quick|thorough> [--replay FILE | --scenario NAME ...]
# Runs one check against /repo's current working tree (or $VERIF_REPO when developing).
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONUTF8=1
export no_proxy='*' NO_PROXY='*'
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY all_proxy ALL_PROXY
# Bytecode goes to a fresh directory: a stale .pyc can never hide a change of the code under test.
PYC=$(mktemp -d /tmp/verif-pyc.XXXXXX)
export PYTHONPYCACHEPREFIX="$PYC"
trap 'rm -rf "$PYC"' EXIT
/opt/venv/bin/python -W ignore "$here/run.py" "$@"
exit $?
