#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o pargocheck .
