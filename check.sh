#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the monitor against /repo's
# working tree and runs one property's check.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/goenv.sh
export GOFLAGS=-mod=readonly
tmp=$(mktemp -d "${TMPDIR:-/tmp}/symmon.XXXXXX") || exit 2
trap '[ -n "$tmp" ] && rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
race=
[ "$prop" = S09 ] && race=-race
mkdir -p "$root/evidence" "$root/replays"
if ! (cd "$root/monitor" && go build $race -o "$tmp/mon" .) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "check.sh: the monitor does not build against /repo" >&2
  exit 2
fi
TMPDIR=$tmp "$tmp/mon" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$root" -tmp "$tmp" $race
exit $?
