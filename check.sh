#!/bin/bash
# usage: check.sh PROPERTY-ID...   (or: check.sh build)
# Builds the analyser if it is not built yet (offline) and decides the named properties on /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
BIN=$V/analyzer/.bin/analyzer
if [ "$1" = build ] || [ ! -x "$BIN" ] || [ -n "$(find "$V/analyzer" -newer "$BIN" -type f -not -path '*/.bin/*' -print -quit)" ]; then
  mkdir -p "$V/analyzer/.bin"
  T=$(mktemp "$V/analyzer/.bin/tmp.XXXXXX") || exit 2
  (cd "$V/analyzer" && go build -buildvcs=false -o "$T" .) || { rm -f "$T"; echo "cannot build the analyser"; exit 2; }
  chmod 755 "$T"; mv -f "$T" "$BIN"
fi
[ "$1" = build ] && exit 0
code=0
for p in "$@"; do
  "$BIN" -prop "$p" -repo "${PS_REPO:-/repo}" -verif "$V" || code=1
done
exit $code
