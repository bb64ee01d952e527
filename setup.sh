#!/bin/bash
# Everything is interpreted and preinstalled; only make sure that it works.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import ratarmountcore' >/dev/null
