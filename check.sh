#!/bin/bash
# check.sh PROPERTY [args]: builds the simulator from /repo's working tree and runs one check
set -e
cd "$(dirname "$0")"
. ./build.sh
exec "$DST_BIN" check "$@"
