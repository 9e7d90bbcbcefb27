#!/bin/sh
# Nothing has to survive from here: every check builds what it needs. This only checks the tools.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json'
cargo --version >/dev/null
