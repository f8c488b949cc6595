#!/bin/bash
# seed.sh ID [check ...]: apply seeded/ID to /repo, build, run tests, demo, checks; undo. For development only.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $d/demo.sh >/tmp/seed.base 2>&1; b=$?; else b=0; fi
git apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.build 2>&1; t=$?
n=$(python3 -c "import json;d=json.load(open('/tmp/seed.json'));print(len(d['passed']),'passed',len(d['failed']),'failed',d['failed'][:3])")
timeout 300 bash $d/demo.sh >/tmp/seed.demo 2>&1; p=$?
echo "$id [$prop] demo base=$b patched=$p tests rc=$t $n"
for c in ${@:-$prop}; do
  (cd /verif; SA_EVIDENCE=/tmp/ev python3 -m sa.run $c 2>&1 | cut -c1-260 | tail -${LINES_OUT:-4} | sed "s/^/   $c: /")
done
