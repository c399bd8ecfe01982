#!/bin/bash
# replay a recorded counterexample against the native build:  tools/replay.sh replays/<ID>.<harness>.model
set -e
cd "$(dirname "$0")/.."
f=$(readlink -f "$1"); b=$(basename "$f" .model); id=${b%%.*}; h=${b#*.}
exec python3 tools/check.py "$id" --replay-model "$f" --harness "$h"
