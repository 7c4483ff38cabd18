#!/bin/bash
# trybug.sh ID [notest]: demo on the clean tree, apply the patch, build, tests, demo, its check; always undo.
id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && bash "$d/demo.sh" >/tmp/demo.$id 2>&1; clean=$?
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1; build=$?
tests=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/tests.$id >/tmp/tests.$id.log 2>&1; tests=$(tail -1 /tmp/tests.$id.log); fi
cd /repo && bash "$d/demo.sh" >/tmp/demo.$id 2>&1; bad=$?
res=""
for p in ${3:-$prop}; do
  bash /verif/check.sh $p quick >/tmp/check.$id.$p 2>&1; rc=$?
  res="$res $p:$rc $(grep -m1 -B1 VIOLATION /tmp/check.$id.$p | head -1 | cut -c1-110)"
done
echo "$id prop=$prop demo clean=$clean bugged=$bad build=$build tests=[$tests] check$res"
