#!/bin/bash
# Everything a check needs is built by the check itself from /repo's working tree; this only verifies the tools.
set -e
cd "$(dirname "$0")/.."
command -v java g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence .work
