#!/bin/bash
# Nothing is kept between runs: a check builds what it needs. Here only: the tools are there and work.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import sys; sys.path.insert(0,"tools"); import registry'
mkdir -p build evidence
