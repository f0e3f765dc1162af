#!/bin/bash
# Builds the harness once: checks that the toolchain and the module cache are
# there. Every check builds it again from /repo's working tree.
set -u
cd "$(dirname "$0")/harness" || exit 1
VERIF_HARNESS="$PWD"
export HOME=/root
. /opt/vp/env.sh
cd "$VERIF_HARNESS" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
WORK="$(mktemp -d /tmp/verif.XXXXXX)" || exit 1
trap 'rm -rf "$WORK"' EXIT
go test -c -vet=off -o "$WORK/h.test" ./props || exit 1
if [ -s "$VERIF_HARNESS/race.txt" ]; then
    go test -c -vet=off -race -o "$WORK/r.test" ./props || exit 1
fi
exit 0
