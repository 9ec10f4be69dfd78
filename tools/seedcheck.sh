#!/bin/bash
# seedcheck.sh [ID...]: run each seeded change's property check on a scratch copy with it applied
cd /verif/seeded; [ $# -gt 0 ] || set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/scXXXXXX); cp -a /repo/. "$d/"
  (cd "$d" && git apply /verif/seeded/$id/patch.diff) || echo "$id: patch does not apply"
  o=$(VERIF_DIR=/verif VERIF_NOEVIDENCE=1 /verif/bin/gover check -repo "$d" $p 2>&1); r=$?
  echo "$id [$p] exit=$r $(echo "$o" | grep VIOLATION | head -1 | cut -c1-220)"
  rm -rf "$d"
done
