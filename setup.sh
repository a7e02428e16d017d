#!/bin/bash
# Warms the build cache: harness, server and race-instrumented server (and the module's test binary).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
w=$(mktemp -d /tmp/vhsetup.XXXXXX) || exit 1
(cd "$here/harness" && go build -buildvcs=false -o "$w/vh" .) || exit 1
(cd /repo && go build -buildvcs=false -o "$w/j8a" ./cmd/j8a && go build -buildvcs=false -race -o "$w/j8a-race" ./cmd/j8a && go test -buildvcs=false -c -o "$w/t" . && go test -buildvcs=false -race -c -o "$w/tr" .) || exit 1
rm -rf "$w"
exit 0
