#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra gosym flags]
# Builds the engine if needed and decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
BIN=$V/bin/gosym
if [ ! -x "$BIN" ] || [ -n "$(find engine -name '*.go' -newer "$BIN" 2>/dev/null | head -1)" ]; then
  mkdir -p bin
  (cd engine && go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || { echo "error: engine does not build"; exit 2; }
fi
exec "$BIN" -verif "$V" -repo "${GOAST_REPO:-/repo}" -prop "$P" -tier "$T" "$@"
