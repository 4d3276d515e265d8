#!/bin/bash
# tools/try_seed.sh ID [--nocheck]: applies seeded/ID in a scratch copy of /repo: demo on both trees, tests import, check on the patched one.
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/seed_XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir $d/repo
(cd /repo && git archive HEAD | tar -x -C $d/repo)
cd $d/repo && git init -q . && git add -A >/dev/null && git -c user.email=a -c user.name=a commit -qm base
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$d/repo MPLBACKEND=Agg
bash $here/seeded/$id/demo.sh >$d/o1 2>&1; r1=$?
[ $r1 -ne 0 ] && tail -5 $d/o1
git apply $here/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $here/seeded/$id/demo.sh >$d/o2 2>&1; r2=$?
prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
echo "$id: demo unchanged=$r1 patched=$r2 ($(tail -1 $d/o2 | cut -c1-120))"
if [ "$2" != "--nocheck" ]; then
  unset PYTHONPATH
  out=$(cd $here && VERIF_REPO=$d/repo VF_SHRINK=5 ./check $prop 2>&1); rc=$?
  echo "$id: check $prop rc=$rc: $(echo "$out" | grep -m1 '^---' | cut -c1-200)"
fi
