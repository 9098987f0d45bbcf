#!/bin/bash
# Builds the harness and warms the build caches (plain and race variants of the server).
set -u
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p "$DIR/build" || exit 1
( cd "$DIR/harness" && CGO_ENABLED=0 GOFLAGS= go build -o "$DIR/build/harness" . ) || exit 1
W=$(mktemp -d)
( cd /repo && GOFLAGS=-mod=readonly go build -buildvcs=false -tags sqlite_fts5 -o "$W/a" ./cmd && GOFLAGS=-mod=readonly go build -buildvcs=false -race -tags sqlite_fts5 -o "$W/b" ./cmd )
rc=$?
rm -rf "$W"
exit $rc
