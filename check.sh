#!/bin/bash
# check.sh PROPERTY            decide one property on /repo's working tree
# check.sh PROPERTY REPLAY     run a replay file against /repo's working tree
# check.sh build DIR           build the simulator into DIR and keep it
# Exit: 0 held, 1 violation (VIOLATION line), 3 the check could not be done.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOSUMDB=off
unset GOOS GOARCH
repo=${ZZSIM_REPO:-/repo}
mkdir -p "$root/.build" || exit 3
tmp=$(mktemp -d "$root/.build/c.XXXXXX") || exit 3
keep=
cleanup() { [ -n "$keep" ] || rm -rf "$tmp"; }
trap cleanup EXIT
trap 'exit 3' TERM INT
fail() { echo "TROUBLE: $*"; exit 3; }

mkdir "$tmp/repo" "$tmp/sim" "$tmp/run"
tar -C "$repo" --exclude=./.git -cf - . | tar -C "$tmp/repo" -xf - || fail "copying $repo"
for f in go.mod go.sum; do
    [ -e "$tmp/repo/$f" ] || cp "$root/sim/src/$f" "$tmp/repo/$f" || fail "$f"
    cp "$tmp/repo/$f" "$tmp/sim/$f"
done
(cd "$root/sim/rewrite" && GOFLAGS=-buildvcs=false GO111MODULE=off go build -o "$tmp/rewrite" main.go) || fail "building the rewriter"
"$tmp/rewrite" -repo "$tmp/repo" -out "$tmp/sim" -stats "$tmp/run/stats.json" || fail "rewriting $repo"
cp -r "$root/sim/src/zzsim" "$tmp/sim/zzsim"
(cd "$tmp/sim" && go build -o "$tmp/run/harness" ./zzsim/harness && go build -o "$tmp/run/simcli" .) || fail "building the simulator"
if [ "$1" = build ]; then
    mkdir -p "$2" && cp "$tmp"/run/* "$2"/
    exit
fi
export ZZSIM_TMP="$tmp/run" ZZSIM_STATS="$tmp/run/stats.json" VERIF_ROOT="$root"
if [ $# -ge 2 ]; then
    "$tmp/run/harness" replay "$2"
else
    "$tmp/run/harness" check "$1"
fi
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=3
exit $rc
