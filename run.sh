#!/bin/bash
# usage: run.sh PROPERTY TIER - builds the checker against /repo's working tree and decides one property
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p "$here/build"
bin="$here/build/mc-$$"
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/mc" && go build -o "$bin" .) ; then
	echo "the checker could not be built against /repo" >&2
	exit 2
fi
if [ "$1" = E16 ]; then
	# this property is explored in a build in which every statement of the code under test is a
	# scheduling point, with the race detector.  The harness itself is not instrumented; its
	# allocations must be visible for the race detector, hence GOEXPERIMENT
	inst="$(mktemp -d)"
	trap 'rm -f "$bin"; rm -rf "$inst"' EXIT
	if ! "$bin" instrument "$inst" "$here/mc" || ! (cd "$here/mc" && GOEXPERIMENT=nosizespecializedmalloc CGO_ENABLED=1 \
		go build -race -tags e16 -overlay "$inst/overlay.json" -gcflags=verif/mc=-race=false -o "$bin" .) ; then
		echo "the instrumented checker could not be built against /repo" >&2
		exit 2
	fi
fi
if [ "${2:-}" = replay ]; then
	# run.sh PROPERTY replay FILE
	VERIF_DIR="$here" "$bin" replay "$3"
	exit
fi
VERIF_DIR="$here" "$bin" run "$1" "${2:-quick}"
