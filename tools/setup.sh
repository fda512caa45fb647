#!/bin/bash
# setup.sh: fills the build cache and checks that the tools are there.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_GOCACHE=$here/.cache/go-build
mkdir -p "$VERIF_GOCACHE"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-$tmp} GOTMPDIR=$tmp
bash "$here/tools/build_harness.sh" "$tmp/bin"
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
echo setup done
