#!/bin/bash
# bash check.sh <property>: builds the harness, then runs one check against /repo's working tree.
set -u
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$DIR" HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p "$DIR/build" "$DIR/evidence" || exit 3
( cd "$DIR/harness" && CGO_ENABLED=0 GOFLAGS= go build -o "$DIR/build/harness.$$" . && mv "$DIR/build/harness.$$" "$DIR/build/harness" ) || exit 3
exec "$DIR/build/harness" "$@"
