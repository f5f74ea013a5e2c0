#!/bin/bash
# builds the checker once, so the build cache is warm; every check builds it again from /repo's working tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p "$here/build" "$here/evidence"
cd "$here/mc" && go build -o /dev/null .
