#!/bin/bash
# run.sh ID TIER: builds the harness against /repo's working tree and runs the
# check of one property. Exit 0: held, 1: VIOLATION, other: no answer.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
TIER="${2:-quick}"
export HOME=/root
. /opt/vp/env.sh
cd "$VERIF/harness" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
WORK="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
RACE=""
if grep -qx "$ID" "$VERIF/harness/race.txt" 2>/dev/null; then
    RACE="-race"
fi
if ! go test -c -vet=off $RACE -o "$WORK/h.test" ./props >"$WORK/build.log" 2>&1; then
    cat "$WORK/build.log" >&2
    echo "ERROR: the harness does not build" >&2
    exit 2
fi
export VERIF_MODE=orchestrate VERIF_PROP="$ID" VERIF_TIER="$TIER" \
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$VERIF" VERIF_WORK="$WORK"
export GORACE="halt_on_error=1 exitcode=66"
"$WORK/h.test" -test.timeout 0
