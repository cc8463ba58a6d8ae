#!/bin/bash
# Builds the instrumenter and, from /repo's current working tree, the simulation
# harness. Usage: build.sh WORKDIR [TAGS]; the result is WORKDIR/zharness.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
work=$1
tags=${2:-}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
mkdir -p "$work" || exit 2
work=$(cd "$work" && pwd)
(cd "$here/instr" && go build -o "$work/instr.$$" .) || { echo "build: the instrumenter does not compile" >&2; exit 2; }
mv -f "$work/instr.$$" "$work/instr"
race=
gc=()
if [ "$tags" = zrace ]; then
	# the compiler reports the memory accesses of the code under test to the
	# simulator's race detector
	race=-race
	m=github.com/squizzling/osmindex
	gc=("-gcflags=$m/...=-race -d=checkptr=0" -gcflags=bytes=-race "-gcflags=bufio=-race" "-gcflags=$m/internal/zsim=-l" "-gcflags=$m/internal/zmmap=-l" "-gcflags=$m/internal/zharness=")
fi
"$work/instr" $race -out "$work/gen" -sim "$here/sim" -repo "$repo" || { echo "build: instrumentation failed" >&2; exit 2; }
(cd "$repo" && go build -tags "$tags" "${gc[@]}" -modfile "$work/gen/go.mod" -overlay "$work/gen/overlay.json" -o "$work/zharness" ./internal/zharness) ||
	{ echo "build: the harness does not compile against this tree" >&2; exit 2; }
