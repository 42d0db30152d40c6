#!/bin/bash
cd "$(dirname "$0")"
for t in $(grep -o '^func Test[A-Za-z0-9]*' findings_test.go | cut -c6-); do timeout 120 ./run.sh -timeout 100s "$@" -run "^$t\$" >/tmp/f.log 2>&1 && echo "PASS $t" || { echo "FAIL $t"; grep -v '^goroutine\|^\s*/\|^$' /tmp/f.log | grep -m3 'findings_test\|panic\|RACE' ; }; done
