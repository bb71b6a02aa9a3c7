#!/bin/bash
# Builds the checkers once, to warm the build cache; every check rebuilds them from /repo's working tree.
set -eu
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$ROOT/env.sh"
T=$(mktemp -d /tmp/mcsetup.XXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$ROOT/mc"
go build -o "$T/mc" .
go run ./instr /repo github.com/influxdata/go-syslog/v3 "$ROOT/mc/zzvsched" "$T"
go build -tags sched -overlay "$T/overlay.json" -o "$T/mcs" .
go build -race -tags sched -overlay "$T/overlay.json" -o "$T/mcrace" . || echo "no race detection"
mkdir -p "$ROOT/evidence" "$ROOT/replays"
