#!/bin/bash
# plant.sh ID [nochecks]: take /verif/seeded/ID through what vcheck asks of it:
# demo passes before, patch applies, stable tests pass, demo fails, check alarms.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 2; }
build() { bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || echo "BUILD FAILED"; }
build
bash "$d/demo.sh" > /tmp/plant.demo0 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
build
bash "$d/demo.sh" > /tmp/plant.demo1 2>&1; r1=$?
if [ "$2" != nocheck ]; then
  bash /opt/vp/test.sh /tmp/plant.json > /dev/null 2>&1
  python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/plant.json'))['passed'])
print('stable tests:', 'all pass' if b <= t else 'BROKEN %s' % sorted(b - t)[:4])
P
fi
echo "$id demo clean=$r0 patched=$r1 (want 0, nonzero)"
for p in ${3:-$prop}; do /verif/check.py $p; echo "$id $p check exit=$?"; done
