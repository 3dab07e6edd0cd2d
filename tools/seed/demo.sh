#!/bin/bash
# run in the repository: 0 the property holds, non-zero it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} TMPDIR="$tmp" PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
mkdir "$tmp/src" && cp -r ./main.go ./go.mod ./go.sum ./pdf "$tmp/src/" && mkdir "$tmp/src/zzdemo" && cp "$here"/*.go "$tmp/src/zzdemo/" || exit 2
cd "$tmp/src" && timeout 120 go run ./zzdemo
