#!/bin/bash
# usage: run.sh ID      (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree and runs the check of property ID.
set -u
ID=$1
HERE=$(cd "$(dirname "$0")" && pwd)
export VH_VERIF=$HERE
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off
B=$(mktemp -d /tmp/vh-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp "$HERE/harness/go.mod" "$B/go.mod"; cp "$HERE/harness/go.sum" "$B/go.sum"
FLAGS="-modfile=$B/go.mod"
case $ID in C17) FLAGS="$FLAGS -race";; esac
OVERLAY=
case $ID in
C32|C01|C24|C09|C10|C11|C12|C13|C14|C15|C16|C17|C28)
  (cd "$HERE/harness" && go run $( echo "-modfile=$B/go.mod" ) ./overlay /repo "$B/ov" "$ID" >"$B/overlay.json") && OVERLAY="-overlay=$B/overlay.json"
esac
cd "$HERE/harness" || exit 2
if [ -n "$OVERLAY" ]; then
  TAGS=; case $ID in C28) TAGS="-tags=verifhook";; esac
  if ! go build $FLAGS $TAGS $OVERLAY -o "$B/vh" . >"$B/log" 2>&1; then
    echo "note: instrumented build failed, building without it"; head -5 "$B/log"; OVERLAY=
    export VH_NOOVERLAY=1
  fi
fi
if [ -z "$OVERLAY" ]; then
  go build $FLAGS -o "$B/vh" . || { echo "ERROR property=$ID the harness does not build against /repo"; exit 2; }
fi
case $ID in
C08|C17|C18|C19|C20|C21|C22|C27|C30|C32|C33)
  R=; case $ID in C17) R=-race;; esac
  (cd /repo && GOFLAGS= go build $R -o "$B/gocryptsftp" .) || { echo "ERROR property=$ID /repo does not build"; exit 2; }
  export VH_BIN=$B/gocryptsftp;;
esac
"$B/vh" run "$ID"
exit $?
