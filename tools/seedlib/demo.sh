#!/bin/bash
# Builds the tool from the working tree, runs it on files made by main.go and
# compares what it prints.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
export GOFLAGS=-buildvcs=false
go build -o "$t/tool" ./cmd/db-recovery && GO111MODULE=off go build -o "$t/demo" "$d/lib.go" "$d/main.go" || { rm -rf "$t"; exit 3; }
timeout 120 "$t/demo" "$t/tool" "$t"
rc=$?
rm -rf "$t"
exit $rc
