#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Builds the checker and decides one property from /repo's current source.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOSUMDB=off
export VERIF_DIR=$here
[ $# -ge 2 ] && export VERIF_TIER=$2
tmp=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
if ! (cd "$here/checker" && go build -o "$tmp/checker" .) >"$tmp/log" 2>&1; then
    cat "$tmp/log"
    echo "the checker does not build"
    exit 2
fi
[ "$1" = build ] && exit 0
"$tmp/checker" check "$1"
