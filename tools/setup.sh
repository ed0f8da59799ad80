#!/bin/sh
# Nothing to install: every check builds what it needs. Fails early when a tool is missing.
set -e
command -v java >/dev/null
command -v cargo >/dev/null
command -v python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
echo "tools present"
