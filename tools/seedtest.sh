#!/bin/bash
# seedtest.sh ID: confirms a planted change in a scratch copy: it applies,
# builds, passes the stable tests, and its demo tells the two trees apart.
id=$1; d=/verif/seeded/$id; t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
cp -a /repo "$t/repo"; cp -a "$d" "$t/demo"; rm -f "$t/demo"/*.diff "$t/demo/meta.json"
cd "$t/repo" || exit 1
bash "$t/demo/demo.sh" >"$t/out0" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test ./... >"$t/test" 2>&1; b=$?
bash "$t/demo/demo.sh" >"$t/out1" 2>&1; c=$?
echo "$id: demo clean=$a tests=$b demo patched=$c"
[ $a != 0 ] && head -5 "$t/out0"; [ $b != 0 ] && grep -m5 FAIL "$t/test"; [ "$c" != 0 ] && tail -2 "$t/out1"
[ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ]
