#!/bin/bash
# Warms the build cache; the checks build again from /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off
cd "$here/harness" || exit 1
work="$(mktemp -d)" || exit 1
trap 'rm -rf -- "$work"' EXIT
cp go.mod "$work/go.mod" && cp /repo/go.sum "$work/go.sum" || exit 1
go build -modfile="$work/go.mod" -race -gcflags=all=-d=checkptr=0 -o /dev/null ./cmd/c01 || exit 1
go build -modfile="$work/go.mod" -o /dev/null ./vk || exit 1
exit 0
