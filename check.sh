#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   builds the analyzer when needed and runs one check against /repo
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
fail() { echo "$prop: $1"; echo "VIOLATION property=$prop replay=$here/check.sh"; exit 1; }
bin="$("$here/build.sh")" || fail "the analyzer could not be built"
"$bin" -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$prop" -tier "$tier"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] && exit $rc
fail "the analyzer ended with status $rc"
