#!/bin/sh
# check.sh ID [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec python3 tools/check.py "$@"
