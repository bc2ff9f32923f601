#!/bin/bash
# check.sh ID [TIER]: build the checker against /repo's working tree and run it.
# check.sh replay FILE: run the case of a violation file again.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB='*' CGO_ENABLED=0
export VERIF_SEED="${VERIF_SEED:-1}"
unset GODEBUG GOMAXPROCS GOGC GOMEMLIMIT 2>/dev/null
tmp=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export MC_TMP="$tmp"
if ! (cd mc && go build -o "$tmp/mc" ./cmd/mc) 2>"$tmp/build.log"; then
	cat "$tmp/build.log" >&2
	echo "the checker does not build against /repo" >&2
	exit 2
fi
if [ "$1" = replay ]; then
	"$tmp/mc" replay "$2"
	exit $?
fi
"$tmp/mc" supervise "$1" "${2:-${VERIF_TIER:-quick}}"
exit $?
