#!/bin/bash
# tlc1.sh SPEC TRACE [timeout]: validate one trace file by hand
cd "$(dirname "$0")/../specs"
TRACE=$2 timeout ${3:-60} java -XX:+UseParallelGC -Xss64m -Xmx2g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:../build/java tlc2.TLC -noGenerateSpecTE -metadir /tmp/md1/$$ -config $1.cfg $1.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting\|^Loading"
