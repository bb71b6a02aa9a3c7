#!/bin/bash
# run.sh PROPERTY [TIER]   builds the checker against /repo's working tree and runs the check of one property
# run.sh replay FILE       runs a recorded counterexample again
set -u
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$ROOT
export VERIF_SEED=${VERIF_SEED:-1}
TIER=${2:-${VERIF_TIER:-quick}}
. "$ROOT/env.sh"
BIN=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'rm -rf "$BIN"' EXIT
cd "$ROOT/mc" || exit 3
fail() { cat "$BIN"/*.log >&2; echo "cannot build the checker" >&2; exit 3; }
sched=0
case "$1" in
  P06|P12|P22) sched=1 ;;
  replay) grep -q '"kind": "schedule"' "$2" && sched=1 ;;
esac
if [ $sched = 1 ]; then
  go run ./instr /repo github.com/influxdata/go-syslog/v3 "$ROOT/mc/zzvsched" "$BIN" >"$BIN/instr.log" 2>&1 || fail
  go build -race -tags sched -overlay "$BIN/overlay.json" -o "$BIN/mcrace" . >"$BIN/race.log" 2>&1 &
  RB=$!
  go build -tags sched -overlay "$BIN/overlay.json" -o "$BIN/mc" . >"$BIN/build.log" 2>&1 || fail
  wait $RB && export MC_RACE_BIN="$BIN/mcrace"
  export MC_INSTR="$BIN/instr.json"
  if [ "$1" = replay ] && grep -q '"Race": true' "$2" && [ -n "${MC_RACE_BIN:-}" ]; then
    GORACE="halt_on_error=0 exitcode=0 history_size=6 atexit_sleep_ms=0" GOMAXPROCS=1 "$MC_RACE_BIN" replay "$2"
    exit $?
  fi
else
  go build -o "$BIN/mc" . >"$BIN/build.log" 2>&1 || fail
fi
"$BIN/mc" "$1" "$TIER"
