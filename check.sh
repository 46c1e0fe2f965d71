#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] [extra harness flags]
#        check.sh --replay FILE
# Builds the harness against /repo's current working tree and runs one property's check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh || exit 2
scratch="$(mktemp -d /tmp/verif-build-XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$here/harness" || exit 2
race=""
case "$1" in
--replay) grep -q '"property": *"C01"' "$2" && race=1 ;;
C01) race=1 ;;
esac
# C01 runs under the race detector; without a C compiler it falls back to comparing results.
if [ -n "$race" ] && CGO_ENABLED=1 go build -race -tags verif -buildvcs=false -o "$scratch/harness" . 2>"$scratch/err" ; then
	:
elif ! go build -tags verif -buildvcs=false -o "$scratch/harness" . ; then
	echo "ERROR: the harness does not build against /repo" >&2
	exit 2
fi
cd "$scratch" || exit 2
if [ "$1" = "--replay" ]; then
	"$scratch/harness" replay "$2"
	exit $?
fi
if [ "$1" = "--list" ]; then
	"$scratch/harness" list
	exit $?
fi
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
"$scratch/harness" check -prop "$prop" -tier "$tier" -verif "$here" "$@"
exit $?
