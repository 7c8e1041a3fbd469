#!/bin/bash
# bash /verif/run.sh <property> [quick|thorough]: builds the explorer against /repo's working tree and runs one check.
# exit 0: held on everything explored; exit 1: a VIOLATION line was printed; 2: the check itself failed (build error).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
out=$(mktemp -d /tmp/vmc.XXXXXX) || exit 2
trap 'rm -rf -- "$out"' EXIT
cd "$here/mc" || exit 2
if [ "$id" = C06 ]; then
	export CGO_ENABLED=1
	python3 "$here/tools/syncoverlay.py" "$(go list -modfile="$here/mc/go.mod" -m -f '{{.Dir}}' github.com/katydid/katydid)" "$out" || exit 2
	opts="-race -tags verifsync -overlay $out/overlay.json"
fi
if ! go build $opts -modfile="$here/mc/go.mod" -o "$out/vmc" . >"$out/build.log" 2>&1; then
	echo "check $id: the explorer does not build against /repo:" >&2
	tail -40 "$out/build.log" >&2
	exit 2
fi
"$out/vmc" -prop "$id" -tier "$tier" -verif "$here"
