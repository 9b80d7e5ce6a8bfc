#!/bin/sh
# nothing is built: checks that the tools the framework needs are there
set -e
python3-vt -c 'import z3'
command -v cvc5 >/dev/null
/opt/venv/bin/python -c 'import pysodium, sqlite3'
mkdir -p evidence
