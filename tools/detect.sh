#!/bin/bash
# detect.sh SEED[:CHECK]...: run the property's quick check against a copy of /repo with the planted bug applied
# (the copy is bound over /repo in a private mount namespace)
for a in "$@"; do
  id=${a%%:*}; d=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ "$a" != "$id" ] && pid=${a##*:}
  c=$(mktemp -d /tmp/detect.XXXXXX)
  cp -a /repo "$c/repo"
  git -C "$c/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$c"; continue; }
  s=$(date +%s)
  unshare -m bash -c "mount --bind $c/repo /repo || exit 9; cd /verif; timeout 900 python3-vt engine/check.py $pid --tier quick" > /tmp/detect-$id-$pid.log 2>&1
  rc=$?
  echo "$id $pid rc=$rc $(( $(date +%s)-s )) s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/detect-$id-$pid.log)"
  rm -rf "$c"
done
