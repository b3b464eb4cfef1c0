#!/bin/bash
# tools/replay.sh FILE [--trace]: rebuilds and re-executes a replay file; exit 1 when the violation is reproduced exactly.
cd "$(dirname "$0")/.." || exit 3
python3 tools/build.py || exit 3
exec .build/simfstrm --replay "$@"
