#!/bin/bash
# Nothing to compile: checks import /repo's working tree with the installed interpreter.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
/opt/venv/bin/python -c 'import sys; assert sys.version_info[:2] >= (3, 10)'
