#!/bin/bash
# run.sh PROPERTY [vh flags]: builds the harness from this directory into a
# scratch directory and runs one property's check against /repo.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
scratch=$(mktemp -d /tmp/vh-run-XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
(cd "$here/harness" && env GOFLAGS="-trimpath -buildvcs=false" CGO_ENABLED=0 GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off go build -o "$scratch/vh" .) || { echo "CHECK ERROR: the harness does not build" >&2; exit 3; }
TMPDIR=$scratch "$scratch/vh" -verif "$here" "$@" "$prop"
