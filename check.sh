#!/bin/bash
# usage: check.sh <property id>   (VERIF_SEED, VERIF_TIER respected; VH_REPO points elsewhere for experiments)
# Builds harness and server from source into a scratch directory, runs one check, removes the scratch directory.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
godir=/opt/veriftools/go1.27.3/bin
[ -x "$godir/go" ] || godir=$(dirname "$(command -v go)")
export PATH="$godir:$PATH" VH_GO="$godir/go" VH_VERIF="$here"
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
(cd "$here/harness" && go build -buildvcs=false -o "$work/vh" .) || { echo "CHECK-ERROR harness does not build"; exit 2; }
"$work/vh" "$id"
exit $?
