#!/bin/bash
# build_harness.sh OUTDIR: builds the driver and the commands of /repo's working tree into OUTDIR.
set -e
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=$PATH:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOWORK=off
export GOCACHE=${VERIF_GOCACHE:?}
mkdir -p "$out"
cat > "$out/overlay.json" <<J
{"Replace": {
 "/repo/index/zz_verif_base.go": "$here/harness/overlay/index_base.go",
 "/repo/index/zz_verif_post.go": "$here/harness/overlay/index_post.go",
 "/repo/index/zz_verif_far.go": "$here/harness/overlay/index_far.go",
 "/repo/regexp/zz_verif_buf.go": "$here/harness/overlay/regexp_buf.go"
}}
J
(cd /repo && go build -mod=readonly -buildvcs=false -o "$out/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep ./cmd/csweb) || { echo "the commands do not build" >&2; exit 2; }
cd "$here/harness"
try() {
	go build -mod=readonly -buildvcs=false -overlay "$out/overlay.json" -tags "$1" -o "$out/vdrive" . 2> "$out/build.err" && echo "$1" > "$out/tags"
}
all=vidx,vpost,vbuf,vfar
try $all && exit 0
# Some in-package access does not fit the code any more: keep what does.
good=
for t in ${all//,/ }; do
	try $t && good=$good,$t
done
try none${good} && exit 0
cat "$out/build.err" >&2
exit 2
