#!/usr/bin/env bash
# check.sh <property> [vmon flags]: rebuilds the monitors against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1
prop=$1; shift
out=$(mktemp -d "${TMPDIR:-/tmp}/vbuild.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
race=
[ "$prop" = C21 ] && race=-race
if ! (cd harness && go build $race -o "$out/vmon" ./vmon) >"$out/build.log" 2>&1; then
  cat "$out/build.log"; echo "INCONCLUSIVE: the monitors do not build against /repo"; exit 2
fi
"$out/vmon" -prop "$prop" -evidence "$VERIF/evidence" -replays "$VERIF/replays" -findings "$VERIF/known-findings.txt" "$@"
exit $?
