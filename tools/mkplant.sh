#!/bin/bash
# mkplant.sh ID PROP "needs" "what it breaks": makes seeded/ID from the uncommitted changes of /repo and a
# demo program on stdin (Go source of a command, or, if it starts with #!, a shell script). Development only.
set -e
id=$1; prop=$2; needs=$3; what=$4
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
git -C /repo checkout -q -- .
test -s "$d/patch.diff"
cat > "$d/.src"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Run in the root of the source tree. Exit 0: behaves; nonzero: the planted bug shows.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=$PATH:/usr/local/go/bin GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOCACHE=${GOCACHE_DEMO:-$tmp/gocache} HOME=$tmp TMPDIR=$tmp CSEARCHINDEX=$tmp/index
D
if head -c 2 "$d/.src" | grep -q '#!'; then
	sed 1d "$d/.src" >> "$d/demo.sh"
else
	cp "$d/.src" "$d/demo.go.txt"
	cat >> "$d/demo.sh" <<'D'
printf '{"Replace": {"%s/cmd/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -mod=readonly -buildvcs=false -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 99
cd "$tmp" && timeout 200 ./demo
D
fi
rm "$d/.src"
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
GOCACHE_DEMO=/tmp/gc exec "$here/tools/plant.sh" "$id"
