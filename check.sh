#!/bin/bash
# check.sh ID [quick|thorough] [drive flags]: decide property ID on /repo.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export VERIF_DIR=$here
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/nsdrive-XXXXXX") || exit 2
(cd "$here/mc/drive" && GOTOOLCHAIN=local GOFLAGS= GOWORK=off GOPROXY=off go build -o "$tmp/drive" .) || { rm -rf "$tmp"; exit 2; }
trap 'kill $pid 2>/dev/null' TERM INT
"$tmp/drive" -tier "$tier" "$@" "$id" &
pid=$!
wait $pid
rc=$?
rm -rf "$tmp"
exit $rc
