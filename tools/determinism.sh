#!/bin/bash
# Development tool: determinism.sh N [PROP...]: event-log hashes of the first N runs must not depend on the workers nor on the hash seed.
N=${1:-100}
PROPS=("${@:2}")
cd "$(dirname "$0")/.." || exit 2
D=$(mktemp -d)
for cfg in "1 0" "3 0" "8 0" "8 12345" "5 777"; do
  read -r n h <<< "$cfg"
  SIM_NPROC=$n PYTHONHASHSEED=$h /opt/venv/bin/python -B check.py hashes "$N" "${PROPS[@]}" > "$D/$n-$h" || exit 2
done
wc -l "$D/1-0"
for f in "$D"/*; do diff -q "$D/1-0" "$f" > /dev/null && echo same || { echo "DIFFERENT $f"; diff "$D/1-0" "$f" | head; }; done
rm -r "$D"
