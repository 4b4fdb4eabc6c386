#!/bin/bash
# check ID              build the harness against /repo's working tree and decide property ID
# check --replay FILE   run the single case of a replay file; exit 1 if it still fails
# Tier comes from VERIF_TIER (quick|thorough, default quick), seed from VERIF_SEED.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_ROOT="${VERIF_ROOT:-$HERE}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOWORK="$HERE/harness/go.work" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
unset GOARCH GOOS CGO_ENABLED GOAMD64
[ -n "${VERIF_TIER_ARG:-}" ] && export VERIF_TIER="$VERIF_TIER_ARG"
REPO=/repo
MODE=run; ID=${1:-}
if [ "$ID" = --replay ]; then
  MODE=replay; FILE=$(readlink -f "$2")
  ID=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$FILE" | head -1)
fi
[ -n "$ID" ] || { echo "usage: $0 ID | --replay FILE" >&2; exit 2; }
BIN=$(mktemp -d /tmp/nobscheck.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
export VERIF_BIN="$BIN"

# files laid over the repository, all behind build tags hk_*
( cd "$HERE/harness/_overlay" && echo "{\"Replace\":{" && \
  find . -type f | LC_ALL=C sort | sed 's|^\./||' | awk -v r="$REPO" -v h="$PWD" \
   '{printf "%s\"%s/%s\":\"%s/%s\"", (NR>1?",\n":""), r, $0, h, $0}' && echo "}}" ) > "$BIN/overlay.json"
HOOKS=$(cat "$HERE/harness/_overlay.hooks")

cd "$HERE/harness" || exit 2
build() { # name tags extra...
  local name=$1 tags=$2; shift 2
  go build -cover -coverpkg=verif/cmd,github.com/henrydcase/nobs/...,mkem/... -overlay "$BIN/overlay.json" -tags "$tags" "$@" -o "$BIN/nobscheck-$name" ./cmd
}
variant() { # name tags extra...: with the hooks, or without if they don't build there
  local name=$1 tags=$2; shift 2
  build "$name" "$tags$T" "$@" && return
  build "$name" "${tags%,}" "$@" && : > "$BIN/hooks-$name"
}
if build default "$(echo $HOOKS | tr ' ' ,)" >"$BIN/log" 2>&1; then
  OK=$HOOKS
else
  cp "$BIN/log" "$BIN/log.all"
  if ! build default "" >"$BIN/log" 2>&1; then
    cat "$BIN/log" >&2; echo "check error: the harness does not build against this tree" >&2; exit 2
  fi
  OK=
  for h in $HOOKS; do
    build default "$h" >"$BIN/log" 2>&1 && OK="$OK $h"
  done
  build default "$(echo $OK | tr ' ' ,)" >"$BIN/log" 2>&1 || { cat "$BIN/log" >&2; exit 2; }
fi
echo $OK > "$BIN/hooks"
T=$(echo $OK | tr ' ' ,)
for c in $("$BIN/nobscheck-default" configs "$ID"); do
  case $c in
    noasm) variant noasm "noasm," ;;
    appengine) variant appengine "appengine," ;;
    fakecpu) # CPUID replaced by a table; not essential
      sed "s|}}\$|,\"$REPO/utils/cpuid_amd64.s\":\"$HERE/harness/_fakecpu/utils/cpuid_amd64.s\",\"$REPO/utils/zz_verif_fake.go\":\"$HERE/harness/_fakecpu/utils/zz_verif_fake.go\"}}|" "$BIN/overlay.json" > "$BIN/overlay.fake.json"
      go build -overlay "$BIN/overlay.fake.json" -tags "$T" -o "$BIN/nobscheck-fakecpu" ./cmd || true ;;
    trace) # Go sources replaced by copies that report what they execute; not essential
      mkdir "$BIN/trace" && go build -o "$BIN/instr" ./instr && \
      "$BIN/instr" "$BIN/overlay.json" "$BIN/overlay.trace.json" "$BIN/trace" "noasm${T:+,$T}" "$REPO" "$HERE/harness/_trace/trace.go" \
        github.com/henrydcase/nobs/dh/sidh github.com/henrydcase/nobs/dh/csidh github.com/henrydcase/nobs/hash/sha3 github.com/henrydcase/nobs/hash/sm3 mkem && \
      go build -overlay "$BIN/overlay.trace.json" -tags "noasm,verif_trace${T:+,$T}" -o "$BIN/nobscheck-trace" ./cmd ;;
    386)   export GOARCH=386 CGO_ENABLED=0; variant 386 ""; r=$?; unset GOARCH CGO_ENABLED; (exit $r) ;;
    race)  export CGO_ENABLED=1; variant race "" -race; r=$?; unset CGO_ENABLED; (exit $r) ;;
    *) echo "unknown build $c" >&2; false ;;
  esac >"$BIN/log" 2>&1 || { cat "$BIN/log" >&2; cp "$BIN/log" "$BIN/failed-$c"; echo "note: build $c failed, its suites are skipped" >&2; }
done
if [ $MODE = replay ]; then
  "$BIN/nobscheck-default" replay "$FILE"
else
  "$BIN/nobscheck-default" run "$ID"
fi
exit $?
