#!/bin/bash
# tryseed.sh NAME [--nocheck]: confirms the planted bug seeded/NAME (demonstration, build, stable tests) and runs the check of its property on it.
cd "$(dirname "$0")/.."; V=$PWD
d=$V/seeded/$1
P=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 9; }
t=$(mktemp -d); cp -r "$d/." "$t/"; rm -f "$t"/*.diff "$t/meta.json"
bash "$t/demo.sh" >"$t/o1" 2>&1; r1=$?
git apply --check "$d/patch.diff" || { echo "NO APPLY"; rm -rf "$t"; exit 9; }
git apply "$d/patch.diff"
bash "$t/demo.sh" >"$t/o2" 2>&1; r2=$?
bash /opt/vp/build.sh >"$t/b" 2>&1; rb=$?
bash /opt/vp/test.sh "$t/t.json" >/dev/null 2>&1; tj=$(python3 -c "
import json;d=json.load(open('$t/t.json'));print(d)" | cut -c1-200)
rc=-; v=
if [ "$2" != --nocheck ]; then (cd "$V"; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh "$P" >"/tmp/seedlog-$1" 2>&1); rc=$?; v=$(grep -m1 VIOLATION "/tmp/seedlog-$1"); fi
git checkout -q -- .
echo "$1 [$P]: demo clean=$r1 patched=$r2 build=$rb tests=$tj check=$rc $v"
[ $r1 = 0 ] || tail -15 "$t/o1"
[ $r2 = 1 ] || { [ $r2 = 0 ] && echo '!! demo passes with patch'; tail -15 "$t/o2"; }
rm -rf "$t"
