#!/bin/bash
# builds the engine from the committed files, offline
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
cd engine && go build -o ../bin/gosym .
