#!/bin/sh
# Nothing to build: the checks import /repo's working tree and run TLC on spec/.
cd "$(dirname "$0")" || exit 1
mkdir -p work evidence
/opt/venv/bin/python -c 'import ansible' && command -v tlc >/dev/null
