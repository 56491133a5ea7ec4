#!/bin/bash
# Runs a check with the interpreter the repository is built for.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python check.py "$@"
