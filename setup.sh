#!/bin/bash
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/analyzer .
