#!/bin/bash
# findings/run.sh [go test flags]: demonstrates the findings against /repo.
here=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\"Replace\": {\"/repo/pipeline/zz_findings_test.go\": \"$here/findings_test.go\"}}" >"$o"
cd /repo && GOFLAGS=-mod=readonly go test -overlay "$o" -vet=off -count=1 "$@" ./pipeline
