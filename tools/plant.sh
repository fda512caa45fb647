#!/bin/bash
# plant.sh ID [PROP...]: confirms the planted bug seeded/ID in a scratch copy of /repo and runs the checks of
# the given properties (default: the one it breaks) against /repo with it applied. Development only.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
. /opt/vp/env.sh
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
export GOCACHE=${PLANT_GOCACHE:-/tmp/gc}
t=$(mktemp -d /tmp/plant_XXXX)
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
cp -a "$d" "$t/demo"; rm -f "$t"/demo/*.diff "$t"/demo/meta.json
demo() { (cd "$t/repo" && HOME=$t/home timeout 300 bash "$t/demo/demo.sh" > "$t/demo.out" 2>&1); echo $?; }
if [ -z "$NODEMO" ]; then
a=$(demo)
[ "$a" = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; tail -5 "$t/demo.out"; exit 1; }
git -C "$t/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd "$t/repo" && go build ./... && go vet ./... >/dev/null 2>&1; go test ./... > "$t/test.out" 2>&1) || { echo "$id: build or tests fail"; tail -20 "$t/test.out"; exit 1; }
b=$(demo)
[ "$b" != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
echo "$id: demo ok ($a/$b: $(tail -1 "$t/demo.out" | cut -c 1-150))"
fi
[ -n "$NOCHECK" ] && exit 0
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply "$d/patch.diff"
for p in ${@:-$prop}; do
	out=$(cd "$here" && python3 tools/check.py $p 2>"$t/err"); rc=$?
	echo "$id: $p rc=$rc $(echo "$out" | tail -1 | cut -c 1-200)"
	[ $rc = 1 ] && grep 'violated by' "$t/err" | head -1 | cut -c 1-300
	[ $rc = 2 ] && tail -5 "$t/err"
done
git -C /repo checkout -q -- .
