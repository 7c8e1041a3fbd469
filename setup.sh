#!/bin/bash
# Builds the explorer once so that the build cache is warm; every check builds again from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
here=$PWD
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
cd "$here/mc" || exit 1
out=$(mktemp -d /tmp/vmc.XXXXXX) || exit 1
trap 'rm -rf -- "$out"' EXIT
go build -o /dev/null . && python3 "$here/tools/syncoverlay.py" "$(go list -m -f '{{.Dir}}' github.com/katydid/katydid)" "$out" &&
	CGO_ENABLED=1 go build -race -tags verifsync -overlay "$out/overlay.json" -o /dev/null .
