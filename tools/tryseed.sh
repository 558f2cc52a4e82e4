#!/bin/bash
# tryseed.sh ID...: in a scratch copy of /repo, is the planted bug valid? (builds, passes the stable tests, demo distinguishes)
# The build and test scripts name /repo, so the copy is bound over it in a private mount namespace.
for id in "$@"; do
  d=/verif/seeded/$id
  c=/tmp/seedcopy
  rm -rf /tmp/seedcopy; cp -a /repo /tmp/seedcopy
  unshare -m bash -c "
    mount --bind $c /repo || exit 9
    cd /repo; bash $d/demo.sh > /tmp/seed-$id.clean 2>&1; a=\$?
    git apply $d/patch.diff || exit 8
    bash /opt/vp/build.sh > /tmp/seed-$id.build 2>&1 || echo build failed
    bash /opt/vp/test.sh /tmp/seed-$id.json > /tmp/seed-$id.test 2>&1
    cd /repo; bash $d/demo.sh > /tmp/seed-$id.bug 2>&1; b=\$?
    python3 - <<PY
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$id.json'))
st=base['stable']
miss=[t for t in st if t not in set(r['passed'])]
print('$id', 'demo clean', \$a, 'demo bug', \$b, 'stable tests failing', len(miss), miss[:3])
PY
  "
  rm -rf /tmp/seedcopy
done
