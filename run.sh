#!/bin/bash
# run.sh <property id>...: builds the analyzer and runs the checks against /repo.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/analyzer .) || exit 2
unset GOWORK
export BBN_OUT="$PWD/evidence"
exec ./bin/analyzer check "$@"
