#!/bin/bash
# tools/tryseed.sh ID...: does the planted bug count, and do the checks catch it? (applies the patch to /repo, undoes it)
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cp -r $D /tmp/seeddemo_$id
  trap 'git -C /repo checkout -q -- .' EXIT
  (cd /repo; timeout 300 bash /tmp/seeddemo_$id/demo.sh >/tmp/seed_$id.clean.log 2>&1); c=$?
  git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_$id.build.log 2>&1; bld=$?
  (cd /repo; timeout 300 bash /tmp/seeddemo_$id/demo.sh >/tmp/seed_$id.bug.log 2>&1); b=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed_$id.json >/dev/null 2>&1
    t=$(python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed_$id.json'))['passed'])
print('ok' if s<=p else 'BROKEN %s'%sorted(s-p))
P
)
  fi
  (cd /verif; timeout 900 python3 check.py $prop quick >/tmp/seed_$id.check.log 2>&1); k=$?
  git checkout -q -- .
  rm -rf /tmp/seeddemo_$id
  echo "$id [$prop] demo clean=$c bug=$b build=$bld tests=$t check=$k $(grep -h VIOLATION /tmp/seed_$id.check.log | head -1)"
done
