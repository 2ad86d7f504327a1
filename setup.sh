#!/bin/bash
# Warms the Go build cache, so that the first check does not pay for a cold build. Needs no network.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/wpkverif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
cd "$here/harness" || exit 2
CGO_ENABLED=0 go build -gcflags='github.com/schwarzlichtbezirk/wpk/...=-d=checkptr=1' -o "$work/h1" . || exit 2
CGO_ENABLED=1 go build -race -o "$work/h2" . || exit 2
cd /repo && CGO_ENABLED=0 go build -o "$work/" ./cmd/pack ./cmd/extract || exit 2
mkdir -p "$here/evidence"
exit 0
