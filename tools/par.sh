#!/bin/bash
# par.sh N ARGS...: seed.py ARGS in N shards (each with its own scratch copies), run from a copy of /verif's working tree
N=$1; shift
C=$(mktemp -d /tmp/vq.XXXXXX)
cp -a /verif/lib /verif/checks /verif/tools /verif/driver /verif/seeded /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json "$C"/ 2>/dev/null
for ((i = 0; i < N; i++)); do
  [ -d /tmp/sc$i ] || cp -a /repo /tmp/sc$i
  [ -d /tmp/hb$i ] || cp -a /verif/build /tmp/hb$i
  SHARD=$i/$N python3 "$C"/tools/${TOOL:-seed.py} "$@" > "$C"/out.$i 2>&1 &
done
wait
cat "$C"/out.*
rm -rf "$C"
