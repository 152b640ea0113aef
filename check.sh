#!/bin/sh
# Builds the orchestrator (if needed) and runs it: check.sh check -prop C01 -tier quick,
# check.sh replay FILE, check.sh sweep -prop C01 -n 1000, ...
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=0 GOWORK=off GOCACHE="$here/.build/gocache"
mkdir -p "$here/.build"
(cd "$here/sim" && go build -trimpath -buildvcs=false -o "$here/.build/vsim" ./cmd/vsim) || exit 2
cmd=$1
shift
exec "$here/.build/vsim" "$cmd" -verif "$here" -repo "${VERIF_REPO:-/repo}" "$@"
