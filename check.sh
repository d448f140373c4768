#!/bin/bash
# check.sh ID [run-options]: rebuild the closed world from /repo's working tree and decide one property.
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PATH=/usr/local/go/bin:$PATH
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOTELEMETRY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
B=$V/.build/$ID
mkdir -p "$B" || exit 2
rm -rf "$B/src"
( cd "$V/mc/rewrite" && go build -o "$B/rewrite" . ) || { echo "rewriter does not build" >&2; exit 2; }
"$B/rewrite" -repo "$REPO" -mc "$V/mc" -out "$B/src" || { echo "rewriting failed" >&2; exit 2; }
( cd "$B/src" && go build -o "$B/verifmc" ./verifmc ) || { echo "the closed world does not build" >&2; exit 2; }
[ -n "${VERIF_SETUP:-}" ] && exit 0
exec "$B/verifmc" run -id "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$V" -repo "$REPO" -build "$B" "$@"
