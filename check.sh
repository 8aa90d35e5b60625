#!/bin/bash
# usage: check.sh PROPERTY   decides one property on the current tree of /repo
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
fail() {
	mkdir -p "$here/evidence"
	echo "$1" | tee "$here/evidence/$id.violation.txt"
	printf '{"property":"%s","tier":"quick","seed":%d,"level":"other","coverage":{"explanation":"the analysis could not run"},"wall_s":0,"violations":1}\n' "$id" "${VERIF_SEED:-0}" > "$here/evidence/$id.json"
	echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
	exit 1
}
mkdir -p "$here/.bin"
out=$(cd "$here/analyzer" && go build -o "$here/.bin/analyzer" . 2>&1) || fail "cannot build the analyzer: $out"
timeout 700 "$here/.bin/analyzer" check "$here" "${REPO:-/repo}" "$id"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || fail "the analysis ended with status $rc"
exit $rc
