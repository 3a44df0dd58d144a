#!/bin/bash
# Runs the demonstration test beside this script against /repo's working tree.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOCACHE=$T/gocache TMPDIR=$T
if [ -d /opt/vp/gocache ]; then cp -a --reflink=auto /opt/vp/gocache "$T/gocache"; fi
R="{\"Replace\":{"
S=""
for f in "$D"/*_test.go; do R="$R$S\"/repo/internal/zzdemo/$(basename "$f")\":\"$f\""; S=","; done
echo "$R}}" > "$T/overlay.json"
cd /repo && go test -c -vet=off -overlay "$T/overlay.json" -o "$T/demo.test" ./internal/zzdemo || exit 2
cd "$T" && ./demo.test -test.timeout 240s
