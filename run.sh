#!/bin/bash
# run.sh PROPERTY [tier]: build the checker (cached) and decide one property.
set -u
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
BIN=bin/dbrverif
if [ ! -x "$BIN" ] || [ -n "$(find checker -name '*.go' -newer "$BIN" -print -quit)" ]; then
	mkdir -p bin
	(cd checker && GOFLAGS="-mod=mod -buildvcs=false" go build -o "../$BIN.$$" . && mv "../$BIN.$$" "../$BIN") || exit 2
fi
[ "$1" = build ] && exit 0
exec "$BIN" -repo /repo -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
