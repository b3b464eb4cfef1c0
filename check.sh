#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the simulator from /repo's working tree and searches.
cd "$(dirname "$0")" || exit 3
tier=${2:-${VERIF_TIER:-quick}}
case $tier in thorough) wall=${VERIF_WALL:-780};; *) tier=quick; wall=${VERIF_WALL:-30};; esac
mkdir -p evidence replays .build
t0=$(date +%s.%N)
python3 tools/build.py || exit 3
t1=$(date +%s.%N)
exec .build/simfstrm --search --prop "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --wall "$wall" --jobs "${VERIF_JOBS:-8}" \
  --evidence "evidence/$1.json" --known known_findings.txt --replays replays --build-s "$(echo "$t1 $t0" | awk '{printf "%.1f", $1-$2}')"
