#!/bin/bash
# setup.sh: builds the monitor once (plain and with the race detector) so that
# the Go build cache is warm; the checks build their own copy again.
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/goenv.sh
export GOFLAGS=-mod=readonly
tmp=$(mktemp -d "${TMPDIR:-/tmp}/symmon.XXXXXX") || exit 2
cd "$root/monitor" && go build -o "$tmp/mon" . && go build -race -o "$tmp/monrace" .
rc=$?
rm -rf "$tmp"
exit $rc
