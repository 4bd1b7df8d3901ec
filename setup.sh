#!/bin/bash
# Warms the build cache; every check builds for itself.
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off
B=$(mktemp -d /tmp/vh-build.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp "$HERE/harness/go.mod" "$B/go.mod"; cp "$HERE/harness/go.sum" "$B/go.sum"
cd "$HERE/harness" && go build -modfile="$B/go.mod" -o "$B/vh" . && go build -race -modfile="$B/go.mod" -o "$B/vhr" .
